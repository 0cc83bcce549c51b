SPECIFICATION Spec
INVARIANT Equivalent RoundTrip
  Blocks
CONSTANT Ids <- EnvIds
CONSTANT MaxLen <- L
CONSTANT Letters <- S
CHECK_DEADLOCK FALSE
