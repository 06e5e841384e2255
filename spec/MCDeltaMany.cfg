INIT Init
NEXT Next
INVARIANTS RepeatsItself EmitGood
CHECK_DEADLOCK FALSE
