INIT Init
NEXT Next
CONSTANTS Values = {1, 2, 4, 9}  MaxLen = 6  Levels = {10, 55, 80, 93}
INVARIANTS EndsExist Ordered Widens NoCorrection Symmetric
CHECK_DEADLOCK FALSE
