SPECIFICATION Spec
CONSTANT Show = FALSE
INVARIANTS Whole Fixed Fast
PROPERTY Ends
CHECK_DEADLOCK FALSE
