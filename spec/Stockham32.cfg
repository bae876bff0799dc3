SPECIFICATION Spec
CONSTANTS Lengths = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 21, 22, 24, 25, 27, 28, 30, 32, 36, 40, 48}
 Below = 16
INVARIANTS Size Owed Result
CHECK_DEADLOCK FALSE
