INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS RoundTrip Dimension Sizes Emit
CHECK_DEADLOCK FALSE
