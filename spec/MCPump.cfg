INIT Init
NEXT Next
CONSTANTS Reps = 11
INVARIANTS Affine Emit
CHECK_DEADLOCK FALSE
