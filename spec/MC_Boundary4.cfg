INIT Init
NEXT Next
CONSTANTS W = 4
 H = 3
INVARIANTS Even DiscIffLoop Emit
CHECK_DEADLOCK FALSE
