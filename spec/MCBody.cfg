INIT Init
NEXT Next
CONSTANTS MaxBody = 4 MaxCount = 2 WithNewDel = TRUE
INVARIANTS Sound FirstAccepted Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
