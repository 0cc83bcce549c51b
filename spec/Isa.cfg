SPECIFICATION Spec
INVARIANT Sound Monotone Graded
PROPERTY Stable Total
CHECK_DEADLOCK FALSE
