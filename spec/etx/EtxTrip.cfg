INIT Init
NEXT Next
CONSTANTS Want = {}
Lanes = 64
INVARIANT Check
CHECK_DEADLOCK FALSE
