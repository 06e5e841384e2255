INIT Init
NEXT Next
CONSTANTS Edited = FALSE
INVARIANTS Read
CHECK_DEADLOCK FALSE
