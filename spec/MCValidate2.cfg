INIT Init
NEXT Next
CONSTANTS MaxLines = 5 Wrongs = 1 Ops = {" ", "-", "+"}
INVARIANTS Consistent Emit
CHECK_DEADLOCK FALSE
