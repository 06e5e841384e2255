INIT Init
NEXT Next
CONSTANT MaxCalls = 5
INVARIANTS OneAttempt CopiesUnused Emit
PROPERTIES UsedIsFinal ClosedIsFinal MissingIsFree
CHECK_DEADLOCK FALSE
