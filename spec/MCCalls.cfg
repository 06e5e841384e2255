INIT Init
NEXT Next
CONSTANT MaxCalls = 4
INVARIANTS SameAsFile Emit
PROPERTIES RefusedIsNoop ClosedIsFinal OutGrows
CHECK_DEADLOCK FALSE
