INIT Init
NEXT Next
CONSTANT Failing <- UseFailing
CHECK_DEADLOCK FALSE
