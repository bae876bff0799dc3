SPECIFICATION Spec
CONSTANTS P = 2
 Barrier = FALSE
 OwnScratch = TRUE
 Shapes <- STwoLevelNB
INVARIANTS Result Determined
CHECK_DEADLOCK FALSE
