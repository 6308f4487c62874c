SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS StructureOk FoldOk PlacedOk BlocksOk ImageOk LabelsOk RelOk UseOk
CHECK_DEADLOCK FALSE
