SPECIFICATION Spec
CONSTANTS MaxN = 20
INVARIANTS RealOK InvOK DctOK SqrtOK ConjOK RealRule HermRule
CHECK_DEADLOCK FALSE
