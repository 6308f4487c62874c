SPECIFICATION Spec
INVARIANTS Exact RuleSound
CHECK_DEADLOCK FALSE
CONSTANT NB = 3
