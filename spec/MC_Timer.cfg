SPECIFICATION Spec
CONSTANT Max = 4
CONSTRAINT Bounded
INVARIANT Follows
CHECK_DEADLOCK FALSE
