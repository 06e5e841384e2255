INIT Init
NEXT Next
CONSTANTS Groups = {"binary"} Extra = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
