INIT Init
NEXT Next
CONSTANTS Groups = {"hunk", "header", "names", "trad", "binary"} Extra = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
