INIT Init
NEXT Next
CONSTANTS MaxLines = 3 Heads = {"same", "ren"}
 Lines1 <- Core
INVARIANTS Sound Flags Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
