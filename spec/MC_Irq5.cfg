SPECIFICATION Spec
CONSTANTS
 Budget = 5
 Rounds = 3
 Prog = {1, 2}
INVARIANTS Transparent Nested Levels Fine
PROPERTY Rises
VIEW View
CHECK_DEADLOCK FALSE
