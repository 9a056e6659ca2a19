INIT Init
NEXT Next
CONSTANTS Ids = {8, 6, 7}  MaxObs = 3  Choices = {"2", "4"}
INVARIANTS OrderOfArgumentsIrrelevant OneRowPerAvailablePair OneChoicePerObservation
CHECK_DEADLOCK FALSE
