INIT Init
NEXT Next
CONSTANT MaxScript = 5
INVARIANTS Sorted NeverFails Exact Emit
CHECK_DEADLOCK FALSE
