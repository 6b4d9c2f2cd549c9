INIT Init
NEXT Next
INVARIANTS NamesKept TableTrue LabelsOnce
CHECK_DEADLOCK FALSE
