INIT Init
NEXT Next
CONSTANTS Alphabet <- Indented Heads <- PrettyHeads MaxLines = 5
INVARIANTS Direct Emit
CHECK_DEADLOCK FALSE
