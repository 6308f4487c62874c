SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS TokensOk StmtsOk LayoutFree CaseFree
CHECK_DEADLOCK FALSE
