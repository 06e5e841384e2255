INIT Init
NEXT Next
CONSTANTS MaxLines = 3 Wrongs = 2 Ops = {" ", "-", "+", "?"}
INVARIANTS Consistent Emit
CHECK_DEADLOCK FALSE
