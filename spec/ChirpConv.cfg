SPECIFICATION Spec
CONSTANTS MaxN = 5
 Depth = 3
 Clear = TRUE
 Short = 0
INVARIANTS Result
CHECK_DEADLOCK FALSE
