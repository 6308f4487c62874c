SPECIFICATION Spec
CONSTANT W = 4
INVARIANTS Loaded ResetIsNew
CHECK_DEADLOCK FALSE
