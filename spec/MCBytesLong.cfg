INIT Init
NEXT Next
CONSTANTS Groups = {"hunk", "header", "names", "trad"} Bytes <- LetterK
INVARIANT Emit
CHECK_DEADLOCK FALSE
