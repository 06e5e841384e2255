INIT Init
NEXT Next
CONSTANTS Parts = {"words"}
INVARIANTS Parses RoundTrip Emit
CHECK_DEADLOCK FALSE
