INIT Init
NEXT Next
CONSTANTS Groups = {"binary"} Extra = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
