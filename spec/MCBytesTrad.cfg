INIT Init
NEXT Next
CONSTANTS Groups = {"trad"} Bytes <- AllBytes
INVARIANT Emit
CHECK_DEADLOCK FALSE
