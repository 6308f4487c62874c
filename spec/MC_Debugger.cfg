SPECIFICATION Spec
CONSTANT L = 3
INVARIANTS StopsRight NeverPast
CHECK_DEADLOCK FALSE
