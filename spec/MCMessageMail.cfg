INIT Init
NEXT Next
CONSTANTS Alphabet <- Mailed Heads <- MailHeads MaxLines = 4
INVARIANTS Direct Emit
CHECK_DEADLOCK FALSE
