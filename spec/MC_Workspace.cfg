CONSTANT N = 6
INIT Init
NEXT Next
INVARIANTS Same Functional Prefix Cause Emit
CHECK_DEADLOCK FALSE
