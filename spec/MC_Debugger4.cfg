SPECIFICATION Spec
CONSTANT L = 4
INVARIANTS StopsRight NeverPast
CHECK_DEADLOCK FALSE
