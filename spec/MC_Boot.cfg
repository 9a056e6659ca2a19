INIT Init
NEXT Next
CONSTANTS ObsIds = {7, 3, 12}  AltIds = {5, 2, 9}  MaxObs = 2
INVARIANTS CompleteIsSample WholeSituations SharesKept LeaveOneOut
CHECK_DEADLOCK FALSE
