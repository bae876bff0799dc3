SPECIFICATION Spec
CONSTANT Show = TRUE
INVARIANT Whole
CHECK_DEADLOCK FALSE
