SPECIFICATION Spec
INVARIANTS OrderFree PairFree Resolved
CHECK_DEADLOCK FALSE
