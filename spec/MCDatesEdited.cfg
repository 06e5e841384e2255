INIT Init
NEXT Next
CONSTANTS Edited = TRUE
INVARIANTS Read
CHECK_DEADLOCK FALSE
