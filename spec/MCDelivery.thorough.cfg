INIT Init
NEXT Next
CONSTANTS MaxCuts = 3
INVARIANTS NothingLost Whole InOrder Emit
CHECK_DEADLOCK FALSE
