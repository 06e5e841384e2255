INIT Init
NEXT Next
CONSTANTS Letters <- Some MaxLen = 6
INVARIANTS TextFormKept Usable Emit
CHECK_DEADLOCK FALSE
