INIT Init
NEXT Next
INVARIANTS Sound Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
