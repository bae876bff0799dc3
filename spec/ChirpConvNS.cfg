SPECIFICATION Spec
CONSTANTS MaxN = 4
 Depth = 2
 Clear = TRUE
 Short = 1
INVARIANTS Result
CHECK_DEADLOCK FALSE
