INIT Init
NEXT Next
CONSTANTS Firsts <- MailFirsts Alphabet <- MailFields Message <- MailMessage MaxLines = 4
INVARIANTS Emit
PROPERTIES Stays Unknown
CHECK_DEADLOCK FALSE
