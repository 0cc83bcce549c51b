INIT Init
NEXT Next
CONSTANTS B = 4
 K = 3
INVARIANT Arithmetic MaddLaw
CHECK_DEADLOCK FALSE
