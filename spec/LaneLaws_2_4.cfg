INIT Init
NEXT Next
CONSTANTS B = 2
 K = 4
INVARIANT Arithmetic MaddLaw
CHECK_DEADLOCK FALSE
