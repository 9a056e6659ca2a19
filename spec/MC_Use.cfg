INIT Init
NEXT Next
CONSTANT MaxFaults = 1
INVARIANT Emit
INVARIANT Bounded
CHECK_DEADLOCK FALSE
