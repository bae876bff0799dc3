SPECIFICATION Spec
INVARIANTS Sound Exact Auto Mono Nested NoXgetbv
CHECK_DEADLOCK FALSE
