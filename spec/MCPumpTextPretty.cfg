INIT Init
NEXT Next
CONSTANTS Kinds = "pretty" Reps = 10
INVARIANTS Regular Emit
CHECK_DEADLOCK FALSE
