INIT Init
NEXT Next
CONSTANTS Groups = {"trad"} Extra = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
