INIT Init
NEXT Next
CONSTANTS MaxLen = 6 Bytes = {0, 1, 2, 128, 144, 145, 129} Heads = {2, 3, 4, 5} SrcLens = {2} Parts = {"bytes"}
INVARIANTS NeverTooMuch AllOfIt NothingOnConflict OkIff Emit
CHECK_DEADLOCK FALSE
