SPECIFICATION Spec
CONSTANTS Variant = "code"
          MaxCap = 7
CONSTRAINT Bound
INVARIANT InBounds
PROPERTY Refines
CHECK_DEADLOCK FALSE
