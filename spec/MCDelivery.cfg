INIT Init
NEXT Next
CONSTANTS MaxCuts = 2
INVARIANTS NothingLost Whole InOrder Emit
CHECK_DEADLOCK FALSE
