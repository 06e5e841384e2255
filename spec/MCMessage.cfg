INIT Init
NEXT Next
CONSTANTS Alphabet <- Indented Heads <- PrettyHeads MaxLines = 4
INVARIANTS Direct Emit
CHECK_DEADLOCK FALSE
