INIT Init
NEXT Next
CONSTANTS From0 = 1950 To0 = 2049
INVARIANTS Counted Sunday Read
CHECK_DEADLOCK FALSE
