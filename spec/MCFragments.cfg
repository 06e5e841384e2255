INIT Init
NEXT Next
CONSTANTS MaxFrags = 3
INVARIANTS Sound InOrder Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
