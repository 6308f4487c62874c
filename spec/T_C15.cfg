SPECIFICATION TraceSpec
CONSTANT Mismatch <- MM
CHECK_DEADLOCK FALSE
CONSTANT NB = 16
