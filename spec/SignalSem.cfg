SPECIFICATION Spec
CONSTANTS MaxN = 8
 Primes = 2
INVARIANTS SqrtOK RuleOK PairOK RealOK
CHECK_DEADLOCK FALSE
