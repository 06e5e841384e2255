INIT Init
NEXT Next
CONSTANT Parts = {"exact"}
INVARIANTS NeverTooMuch Within Refused NothingOnRefusal Emit
CHECK_DEADLOCK FALSE
