SPECIFICATION Spec
CONSTANTS P = 2
 Barrier = TRUE
 OwnScratch = TRUE
 Shapes <- STwoLevel
INVARIANTS Result Determined
CHECK_DEADLOCK FALSE
