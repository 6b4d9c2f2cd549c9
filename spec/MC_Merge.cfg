INIT Init
NEXT Next
CONSTANTS
 MaxItems = 2
INVARIANTS EveryCellOnce SameAgain Shares NeverIgnored OwnFirst HiddenKept DataCommon Emit
CHECK_DEADLOCK FALSE
