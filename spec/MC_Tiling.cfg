CONSTANTS N = 5 M = 2 Steps = 2
INIT Init
NEXT Next
INVARIANTS Pick Tiles Breaks Emit
CHECK_DEADLOCK FALSE
