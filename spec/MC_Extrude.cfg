INIT Init
NEXT Next
CONSTANTS
 MaxItems = 2
INVARIANTS Similar CenterMoves HalfTurn OnAxis Emit
CHECK_DEADLOCK FALSE
