CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Perm Start NotLonger Emit
CHECK_DEADLOCK FALSE
