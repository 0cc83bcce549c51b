CONSTANTS MaxN = 26
          MaxP = 4
          Grain = 2
SPECIFICATION Spec
INVARIANT Agrees Tiling
PROPERTY WriteOnce
CHECK_DEADLOCK FALSE
