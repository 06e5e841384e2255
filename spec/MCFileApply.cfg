INIT Init
NEXT Next
INVARIANTS RefusedWritesNothing CopyIsSource TextAsDefined BinaryAlone Emit
CHECK_DEADLOCK FALSE
