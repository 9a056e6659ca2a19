INIT Init
NEXT Next
CONSTANTS AltIds = {2, 5, 9}  MaxObs = 3  Types = {"Nested"}
INVARIANTS Distribution Reduces Separate Copies Emit
CHECK_DEADLOCK FALSE
