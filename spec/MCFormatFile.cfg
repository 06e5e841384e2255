INIT Init
NEXT Next
INVARIANTS GoodSurvives GoodTogether Emit
CHECK_DEADLOCK FALSE
