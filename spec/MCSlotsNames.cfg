INIT Init
NEXT Next
CONSTANTS Groups = {"names"} Extra = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
