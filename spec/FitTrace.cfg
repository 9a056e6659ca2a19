INIT Init
NEXT Next
CONSTANT Failing <- FitFailing
CHECK_DEADLOCK FALSE
