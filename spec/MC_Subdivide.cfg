CONSTANTS NMax = 16
INIT Init
NEXT Next
INVARIANTS IncreasingFromStartToEnd ListIsPermutation MirrorImages SmallToLarge LargeToSmall EqualParts
CHECK_DEADLOCK FALSE
