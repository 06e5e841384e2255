INIT Init
NEXT Next
CONSTANTS Pieces <- Encoded MaxPieces = 5
INVARIANTS Whole Ordered Settled Emit
CHECK_DEADLOCK FALSE
