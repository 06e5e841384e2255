INIT Init
NEXT Next
CONSTANTS Groups = {"binary"} Bytes <- AllBytes
INVARIANT Emit
CHECK_DEADLOCK FALSE
