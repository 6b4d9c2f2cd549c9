INIT Init
NEXT Next
INVARIANTS OnePerLine Lossless Forms Emit
CHECK_DEADLOCK FALSE
