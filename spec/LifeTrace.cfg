INIT Init
NEXT Next
CONSTANT Failing <- LifeFailing
CHECK_DEADLOCK FALSE
