INIT Init
NEXT Next
CONSTANTS Groups = {"header"} Bytes <- AllBytes
INVARIANT Emit
CHECK_DEADLOCK FALSE
