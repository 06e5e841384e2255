INIT Init
NEXT Next
INVARIANTS NeverTooMuch AllOfIt NothingOnConflict Emit
CHECK_DEADLOCK FALSE
