SPECIFICATION Spec
CONSTANT W = 3
INVARIANTS Loaded ResetIsNew
CHECK_DEADLOCK FALSE
