INIT Init
NEXT Next
CONSTANT MaxGroups = 3
INVARIANTS Emit OneLabelPerColumn LabelsDistinct Values DiffSumsToSame
CHECK_DEADLOCK FALSE
