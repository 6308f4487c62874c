SPECIFICATION Spec
INVARIANTS TruncFits
CHECK_DEADLOCK FALSE
