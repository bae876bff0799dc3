SPECIFICATION Spec
CONSTANTS MaxN = 6
 Depth = 4
 Clear = TRUE
 Short = 0
INVARIANTS Result
CHECK_DEADLOCK FALSE
