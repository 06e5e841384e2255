INIT Init
NEXT Next
CONSTANTS Parts = {"names", "succ", "time"}
INVARIANTS Sound OnlyPairs Emit
PROPERTIES StepsProgress
CHECK_DEADLOCK FALSE
