INIT Init
NEXT Next
CONSTANTS MaxSrc = 2 MaxLines1 = 0 MaxPos = 3 Pairs = TRUE MaxLines2 = 1 MaxFirst = 0 MaxSecond = 0
INVARIANTS OkIffApplies OkIsPatched LocIsFirst Emit
PROPERTIES OutGrows
CHECK_DEADLOCK FALSE
