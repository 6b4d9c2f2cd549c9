INIT Init
NEXT Next
INVARIANTS OneCellPerColumnAndLevel OnColumn Prisms FlatIsFlat Emit
CHECK_DEADLOCK FALSE
