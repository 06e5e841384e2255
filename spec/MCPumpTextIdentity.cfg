INIT Init
NEXT Next
CONSTANTS Kinds = "identity" Reps = 10
INVARIANTS Regular Emit
CHECK_DEADLOCK FALSE
