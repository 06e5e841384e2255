INIT Init
NEXT Next
CONSTANTS Groups = {"header"} Extra = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
