SPECIFICATION Spec
CONSTANTS Variant = "short"
          MaxCap = 7
CONSTRAINT Bound
INVARIANT InBounds
PROPERTY Refines
CHECK_DEADLOCK FALSE
