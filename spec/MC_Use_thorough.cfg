INIT Init
NEXT Next
CONSTANT MaxFaults = 2
INVARIANT Emit
INVARIANT Bounded
CHECK_DEADLOCK FALSE
