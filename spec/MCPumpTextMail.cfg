INIT Init
NEXT Next
CONSTANTS Kinds = "mail" Reps = 10
INVARIANTS Regular Emit
CHECK_DEADLOCK FALSE
