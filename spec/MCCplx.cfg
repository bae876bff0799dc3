SPECIFICATION Spec
CONSTANT B = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
