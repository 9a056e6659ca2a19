INIT Init
NEXT Next
CONSTANT Failing <- DefFailing
CHECK_DEADLOCK FALSE
