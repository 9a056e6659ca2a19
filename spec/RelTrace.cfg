INIT Init
NEXT Next
CONSTANT Failing <- RelFailing
CHECK_DEADLOCK FALSE
