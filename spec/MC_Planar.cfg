INIT Init
NEXT Next
INVARIANTS SizesAgree CellsJoinTheirSegment HiddenIsZeroArea EndsOnLines Emit
CHECK_DEADLOCK FALSE
