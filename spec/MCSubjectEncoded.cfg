INIT Init
NEXT Next
CONSTANTS Pieces <- Encoded MaxPieces = 4
INVARIANTS Whole Ordered Settled Emit
CHECK_DEADLOCK FALSE
