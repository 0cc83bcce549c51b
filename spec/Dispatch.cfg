CONSTANTS Threads = {1, 2, 3}
          MaxCalls = 2
          Proto = "ifunc"
SPECIFICATION Spec
INVARIANT Memory Callable Settled Once
PROPERTY Returns
CHECK_DEADLOCK FALSE
