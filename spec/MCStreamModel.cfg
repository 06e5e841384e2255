INIT Init
NEXT Next
CONSTANTS MaxReads = 3 Asks = {0, 1, 3} Sizes = {0, 1} Actuals = {0, 1, 2, 4} Answers = TRUE
INVARIANTS AtMostOneMore EndMeansExact FailureMeansWrong Answerable
PROPERTIES Final Apart
CHECK_DEADLOCK FALSE
