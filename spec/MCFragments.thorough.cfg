INIT Init
NEXT Next
CONSTANTS MaxFrags = 4
INVARIANTS Sound InOrder Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
