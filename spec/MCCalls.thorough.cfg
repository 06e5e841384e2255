INIT Init
NEXT Next
CONSTANT MaxCalls = 5
INVARIANTS SameAsFile Emit
PROPERTIES RefusedIsNoop ClosedIsFinal OutGrows
CHECK_DEADLOCK FALSE
