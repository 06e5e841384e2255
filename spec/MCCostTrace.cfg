INIT Init
NEXT Next
CONSTANTS Times = 8 Each = 131072 Spare = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
