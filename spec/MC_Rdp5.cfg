CONSTANT N = 5
INIT Init
NEXT Next
INVARIANTS Ends Result Within Emit
CHECK_DEADLOCK FALSE
