INIT Init
NEXT Next
CONSTANTS Groups = {"names"} Bytes <- AllBytes
INVARIANT Emit
CHECK_DEADLOCK FALSE
