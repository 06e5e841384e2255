INIT Init
NEXT Next
CONSTANTS MaxLen = 3
 Alphabet <- Worded
INVARIANTS Sound Survives QuoteUnquote EmitName
PROPERTIES StepsProgress
CHECK_DEADLOCK FALSE
