INIT Init
NEXT Next
CONSTANT MaxCalls = 4
INVARIANTS OneAttempt CopiesUnused Emit
PROPERTIES UsedIsFinal ClosedIsFinal MissingIsFree
CHECK_DEADLOCK FALSE
