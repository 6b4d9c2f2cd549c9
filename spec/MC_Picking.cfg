CONSTANTS N = 5 Ids = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Parity NoTwice Recent History Emit
CHECK_DEADLOCK FALSE
