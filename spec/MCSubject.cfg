INIT Init
NEXT Next
CONSTANTS Pieces <- Plain MaxPieces = 3
INVARIANTS Whole Ordered Settled Emit
CHECK_DEADLOCK FALSE
