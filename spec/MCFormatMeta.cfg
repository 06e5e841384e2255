INIT Init
NEXT Next
CONSTANTS Parts = {"meta"}
INVARIANTS Parses RoundTrip Emit
CHECK_DEADLOCK FALSE
