INIT Init
NEXT Next
CONSTANTS Parts = {"content", "rename", "create", "bytes", "trad"}
INVARIANTS Parses RoundTrip Emit
CHECK_DEADLOCK FALSE
