INIT Init
NEXT Next
INVARIANTS OnRadii Closes SectorCloses Conforming Positive Emit
CHECK_DEADLOCK FALSE
