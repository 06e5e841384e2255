INIT Init
NEXT Next
CONSTANTS Groups = {"hunk", "header", "names", "trad", "binary"} Extra = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
