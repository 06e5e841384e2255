INIT Init
NEXT Next
CONSTANTS MaxLines = 2 Heads = {"same", "ren", "bare", "quoted", "badq", "nosep"}
 Lines1 <- AllLines
INVARIANTS Sound Flags Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
