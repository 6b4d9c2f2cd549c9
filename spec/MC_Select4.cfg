INIT Init
NEXT Next
CONSTANT N = 4
INVARIANTS Inside Split DimSplit Keep Emit
CHECK_DEADLOCK FALSE
