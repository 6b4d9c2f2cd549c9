INIT Init
NEXT Next
CONSTANTS
 MaxItems = 3
INVARIANTS Similar CenterMoves HalfTurn OnAxis Emit
CHECK_DEADLOCK FALSE
