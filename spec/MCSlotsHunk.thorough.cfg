INIT Init
NEXT Next
CONSTANTS Groups = {"hunk"} Extra = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
