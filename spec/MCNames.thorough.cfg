INIT Init
NEXT Next
CONSTANTS MaxLen = 4
 Alphabet <- Hostile
INVARIANTS Sound Survives QuoteUnquote EmitName
PROPERTIES StepsProgress
CHECK_DEADLOCK FALSE
