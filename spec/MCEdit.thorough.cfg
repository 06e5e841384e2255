INIT Init
NEXT Next
CONSTANT MaxScript = 7
INVARIANTS Sorted NeverFails Exact Emit
CHECK_DEADLOCK FALSE
