SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS Partition Position Trimmed
CHECK_DEADLOCK FALSE
