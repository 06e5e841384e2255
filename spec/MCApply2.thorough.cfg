INIT Init
NEXT Next
CONSTANTS MaxSrc = 3 MaxLines1 = 0 MaxPos = 4 Pairs = TRUE MaxLines2 = 1 MaxFirst = 0 MaxSecond = 0
INVARIANTS OkIffApplies OkIsPatched LocIsFirst Emit
PROPERTIES OutGrows
CHECK_DEADLOCK FALSE
