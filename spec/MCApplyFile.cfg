INIT Init
NEXT Next
INVARIANTS OkIffApplies OkIsPatched Exact Emit
CHECK_DEADLOCK FALSE
