INIT Init
NEXT Next
CONSTANTS Groups = {"header"} Extra = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
