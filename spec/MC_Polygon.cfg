INIT Init
NEXT Next
INVARIANTS AreaLaw Compose Oriented Mirror Moved Emit
CHECK_DEADLOCK FALSE
