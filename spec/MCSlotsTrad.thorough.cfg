INIT Init
NEXT Next
CONSTANTS Groups = {"trad"} Extra = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
