INIT Init
NEXT Next
CONSTANTS MaxSrc = 4 MaxLines1 = 0 MaxPos = 5 Pairs = FALSE MaxLines2 = 0 MaxFirst = 4 MaxSecond = 2
INVARIANTS OkIffApplies OkIsPatched LocIsFirst Emit
PROPERTIES OutGrows
CHECK_DEADLOCK FALSE
