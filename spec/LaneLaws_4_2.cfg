INIT Init
NEXT Next
CONSTANTS B = 4
 K = 2
INVARIANT Arithmetic MaddLaw
CHECK_DEADLOCK FALSE
