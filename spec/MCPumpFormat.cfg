INIT Init
NEXT Next
CONSTANTS Reps = 3
INVARIANTS Regular Emit
CHECK_DEADLOCK FALSE
