CONSTANTS Threads = {1, 2}
          MaxCalls = 2
          Proto = "early"
SPECIFICATION Spec
INVARIANT Memory Callable Settled Once
CHECK_DEADLOCK FALSE
