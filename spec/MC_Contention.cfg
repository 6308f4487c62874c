SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Once
PROPERTY Arrives
CHECK_DEADLOCK FALSE
