SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Partition Position Trimmed
CHECK_DEADLOCK FALSE
