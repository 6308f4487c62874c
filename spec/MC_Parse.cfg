SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS TokensOk StmtsOk LayoutFree CaseFree
CHECK_DEADLOCK FALSE
