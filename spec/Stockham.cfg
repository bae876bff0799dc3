SPECIFICATION Spec
CONSTANTS Lengths = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24}
 Below = 8
INVARIANTS Size Owed Result
CHECK_DEADLOCK FALSE
