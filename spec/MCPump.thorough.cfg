INIT Init
NEXT Next
CONSTANTS Reps = 15
INVARIANTS Affine Emit
CHECK_DEADLOCK FALSE
