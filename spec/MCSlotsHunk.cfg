INIT Init
NEXT Next
CONSTANTS Groups = {"hunk"} Extra = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
