CONSTANTS MaxN = 17
          MaxP = 3
          Grain = 1
SPECIFICATION Spec
INVARIANT Agrees Tiling
PROPERTY WriteOnce Ends
CHECK_DEADLOCK FALSE
