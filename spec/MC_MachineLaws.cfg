SPECIFICATION Spec
INVARIANT Laws
CONSTANT Ids <- EnvIds
CHECK_DEADLOCK FALSE
