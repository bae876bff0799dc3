SPECIFICATION Spec
CONSTANTS MaxN = 10
INVARIANTS RealOK InvOK DctOK SqrtOK ConjOK RealRule HermRule
CHECK_DEADLOCK FALSE
