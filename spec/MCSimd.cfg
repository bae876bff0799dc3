SPECIFICATION Spec
CONSTANT MaxBlocks = 4
INVARIANTS Unique Owned Once
CHECK_DEADLOCK FALSE
