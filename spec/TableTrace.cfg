INIT Init
NEXT Next
CONSTANT Failing <- TableFailing
CHECK_DEADLOCK FALSE
