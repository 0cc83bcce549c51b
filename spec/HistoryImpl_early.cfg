SPECIFICATION Spec
CONSTANTS Variant = "early"
          MaxCap = 7
CONSTRAINT Bound
INVARIANT InBounds
PROPERTY Refines
CHECK_DEADLOCK FALSE
