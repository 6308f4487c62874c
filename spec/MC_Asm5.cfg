SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS StructureOk FoldOk PlacedOk BlocksOk ImageOk LabelsOk RelOk UseOk
CHECK_DEADLOCK FALSE
