INIT Init
NEXT Next
CONSTANTS Parts = {"content", "rename", "create", "binary", "bytes", "trad", "many"}
INVARIANTS Parses RoundTrip Emit
CHECK_DEADLOCK FALSE
