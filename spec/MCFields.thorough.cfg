INIT Init
NEXT Next
CONSTANTS Firsts <- PrettyFirsts Alphabet <- PrettyFields Message <- PrettyMessage MaxLines = 4
INVARIANTS Emit
PROPERTIES Stays Unknown
CHECK_DEADLOCK FALSE
