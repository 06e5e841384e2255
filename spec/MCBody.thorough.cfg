INIT Init
NEXT Next
CONSTANTS MaxBody = 5 MaxCount = 3 WithNewDel = TRUE
INVARIANTS Sound FirstAccepted Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
