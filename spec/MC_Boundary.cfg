INIT Init
NEXT Next
CONSTANTS W = 3
 H = 3
INVARIANTS Even DiscIffLoop Emit
CHECK_DEADLOCK FALSE
