INIT Init
NEXT Next
CONSTANTS From0 = 1700 To0 = 2400
INVARIANTS Counted Sunday Read
CHECK_DEADLOCK FALSE
