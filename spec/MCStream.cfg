INIT Init
NEXT Next
CONSTANTS MaxReads = 3 Asks = {0, 1, 2, 5} Sizes = {0, 1, 3} Actuals = {0, 1, 2, 3, 4, 5} Answers = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
