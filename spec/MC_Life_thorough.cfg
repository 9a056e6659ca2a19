INIT Init
NEXT Next
VIEW View
CONSTANT Deep = TRUE
INVARIANT FileIsAModel
PROPERTY Isolated Replaced OnlyTheCaller
CHECK_DEADLOCK FALSE
