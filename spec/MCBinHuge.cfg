INIT Init
NEXT Next
CONSTANT Parts = {"huge", "bombs"}
INVARIANTS NeverTooMuch Within Refused NothingOnRefusal Emit
CHECK_DEADLOCK FALSE
