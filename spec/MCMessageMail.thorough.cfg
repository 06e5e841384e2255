INIT Init
NEXT Next
CONSTANTS Alphabet <- Mailed Heads <- MailHeads MaxLines = 5
INVARIANTS Direct Emit
CHECK_DEADLOCK FALSE
