INIT Init
NEXT Next
CONSTANTS Ids = {8, 6}  MaxObs = 2  Choices = {"2", "4", "nan", "3"}
INVARIANTS OrderOfArgumentsIrrelevant OneRowPerAvailablePair OneChoicePerObservation
CHECK_DEADLOCK FALSE
