INIT Init
NEXT Next
CONSTANTS Groups = {"names"} Extra = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
