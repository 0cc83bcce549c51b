SPECIFICATION Spec
CONSTANTS Variant = "from0"
          MaxCap = 7
CONSTRAINT Bound
INVARIANT InBounds
PROPERTY Refines
CHECK_DEADLOCK FALSE
