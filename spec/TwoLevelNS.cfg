SPECIFICATION Spec
CONSTANTS P = 2
 Barrier = TRUE
 OwnScratch = FALSE
 Shapes <- STwoLevelNS
INVARIANTS Result Determined
CHECK_DEADLOCK FALSE
