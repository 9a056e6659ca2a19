INIT Init
NEXT Next
CONSTANT Failing <- BootFailing
CHECK_DEADLOCK FALSE
