INIT Init
NEXT Next
INVARIANTS LastRuleWins Untouched Complement IgnoredNeverInherited Emit
CHECK_DEADLOCK FALSE
