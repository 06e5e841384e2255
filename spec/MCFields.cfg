INIT Init
NEXT Next
CONSTANTS Firsts <- PrettyFirsts Alphabet <- PrettyFields Message <- PrettyMessage MaxLines = 3
INVARIANTS Emit
PROPERTIES Stays Unknown
CHECK_DEADLOCK FALSE
