SPECIFICATION Spec
CONSTANTS
 Budget = 3
 Rounds = 2
 Prog = {1, 2}
INVARIANTS Transparent Nested Levels Fine
PROPERTY Rises
VIEW View
CHECK_DEADLOCK FALSE
