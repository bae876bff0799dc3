SPECIFICATION Spec
CONSTANTS P = 3
 Barrier = TRUE
 OwnScratch = TRUE
 Shapes <- STwoLevel3
INVARIANTS Result Determined
CHECK_DEADLOCK FALSE
