INIT Init
NEXT Next
INVARIANT Done
CHECK_DEADLOCK FALSE
