SPECIFICATION Spec
CONSTANTS T = 3
 Len0 = 2
 Locs = {0, 1}
INVARIANT SameResult
CHECK_DEADLOCK FALSE
