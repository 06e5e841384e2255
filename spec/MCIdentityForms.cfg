INIT Init
NEXT Next
CONSTANTS Gaps <- AllGaps
INVARIANTS AsWritten Emit
CHECK_DEADLOCK FALSE
