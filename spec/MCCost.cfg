INIT Init
NEXT Next
CONSTANTS MaxLines = 5 MaxLen = 4 MaxBlock = 6 Times = 2 Each = 6 Spare = 0
INVARIANTS Bounded Tight Finishes
CHECK_DEADLOCK FALSE
