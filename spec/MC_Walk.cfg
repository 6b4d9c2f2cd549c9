INIT Init
NEXT Next
INVARIANTS SeesPieces Covers EndsMeet Ignored Emit
CHECK_DEADLOCK FALSE
