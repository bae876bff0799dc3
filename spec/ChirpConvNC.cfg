SPECIFICATION Spec
CONSTANTS MaxN = 4
 Depth = 4
 Clear = FALSE
 Short = 0
INVARIANTS Result
CHECK_DEADLOCK FALSE
