INIT Init
NEXT Next
CONSTANTS MaxLen = 6 Bytes = {0, 1, 2, 128, 144, 145, 129} Heads = {1, 2, 3, 4, 5, 6} SrcLens = {2} Parts = {"ops", "inserts", "sizes"}
INVARIANTS NeverTooMuch AllOfIt NothingOnConflict OkIff Emit
CHECK_DEADLOCK FALSE
