INIT Init
NEXT Next
CONSTANTS AltIds = {2, 5, 9}  MaxObs = 3  Types = {"MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested", "Mixed"}
INVARIANTS Reduces Copies Score Curvature Emit
CHECK_DEADLOCK FALSE
