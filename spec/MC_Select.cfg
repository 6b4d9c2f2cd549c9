INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Inside Split DimSplit Keep Emit
CHECK_DEADLOCK FALSE
