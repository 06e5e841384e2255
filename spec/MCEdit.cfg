INIT Init
NEXT Next
CONSTANT MaxScript = 6
INVARIANTS Sorted NeverFails Exact Emit
CHECK_DEADLOCK FALSE
