INIT Init
NEXT Next
CONSTANTS Letters <- Some MaxLen = 5
INVARIANTS TextFormKept Usable Emit
CHECK_DEADLOCK FALSE
