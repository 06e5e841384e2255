INIT Init
NEXT Next
CONSTANTS Total = 3 MaxLen = 5
INVARIANTS NeverSwallowed NothingAfterFailedWrite PrefixOnly SuccessMeansAll ApplyErrors CorrectAccepted
CHECK_DEADLOCK FALSE
