INIT Init
NEXT Next
CONSTANT Failing <- ModelFailing
CHECK_DEADLOCK FALSE
