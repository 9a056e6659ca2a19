INIT Init
NEXT Next
VIEW View
CONSTANT Deep = FALSE
INVARIANT FileIsAModel
PROPERTY Isolated Replaced OnlyTheCaller
CHECK_DEADLOCK FALSE
