CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Groups2 Apart Emit
CHECK_DEADLOCK FALSE
