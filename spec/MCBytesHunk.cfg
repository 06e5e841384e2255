INIT Init
NEXT Next
CONSTANTS Groups = {"hunk"} Bytes <- AllBytes
INVARIANT Emit
CHECK_DEADLOCK FALSE
