INIT Init
NEXT Next
INVARIANTS AsWritten Emit
CHECK_DEADLOCK FALSE
