INIT Init
NEXT Next
CONSTANTS AltIds = {2, 5, 9}  MaxObs = 2  Types = {"Mixed"}
INVARIANTS Distribution Reduces Separate Copies Emit
CHECK_DEADLOCK FALSE
