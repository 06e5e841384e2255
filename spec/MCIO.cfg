INIT Init
NEXT Next
CONSTANTS Total = 2 MaxLen = 4
INVARIANTS NeverSwallowed NothingAfterFailedWrite PrefixOnly SuccessMeansAll ApplyErrors CorrectAccepted
CHECK_DEADLOCK FALSE
