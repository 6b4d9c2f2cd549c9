INIT Init
NEXT Next
CONSTANTS
 MaxItems = 4
 Elev = {0, 1, 3}
 Prios = {0, 1, 2}
 Thicks = {0, 1}
INVARIANTS NoInversion TopPriorityStays UntouchedWithoutConflict PairRule MovedTouches Idempotent Emit
CHECK_DEADLOCK FALSE
