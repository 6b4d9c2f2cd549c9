INIT Init
NEXT Next
CONSTANT N = 2
INVARIANTS RoundTrip Dimension Sizes Emit
CHECK_DEADLOCK FALSE
