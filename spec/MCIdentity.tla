------------------------------ MODULE MCIdentity ------------------------------
(* C24: every short string over the characters that matter, built one character *)
(* at a time; the parsed identity's text form parses back to it.                  *)
EXTENDS Identity
CONSTANTS Letters, MaxLen
Some == {"a", " ", "<", ">", "@", "\"", "\\", "(", ")"}
VARIABLE str
Init == str = ""
Next == Len(str) < MaxLen /\ \E c \in Letters : str' = str \o c
U == ParseIdentity(str)
Plain(t) == \A c \in {"\"", "\\", "(", ")", "<", ">"} : ~HasSub(t, c)
TextFormKept == LET u == U IN u.ok /\ Plain(u.name) /\ Plain(u.email) => ParseIdentity(IdentityText(u)) = u
Usable == LET u == U IN u.ok => u.name # "" /\ (IsUsable(u.name) \/ u.name = u.email)
Emit == PrintT(ToJson([s |-> str, u |-> U]))
=============================================================================
