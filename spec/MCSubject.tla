------------------------------- MODULE MCSubject -------------------------------
(* C22: every subject of a few pieces in every mode.                               *)
EXTENDS PatchHeader
CONSTANTS Pieces, MaxPieces
Plain == {"Re:", "re", "E:", "R", "[", "]", "PATCH", ":", " ", "\t", "a", "[PATCH v3 1/2]", "[RFC PATCH]", "[x]", "b c", "[]", Byte(195) \o Byte(169)}
Encoded == {"=?UTF-8?q?a=20b?=", " =?UTF-8?q?=C3=A9=3F=3D=5F?=", "[PATCH] ", "Re: ", " ", "[x] ", "=?UTF-8?q?c?=", "=?UTF-8?q?=20d?=", "a"}
Modes == {"all", "patch", "space"}
VARIABLES sub, len
Init == sub = "" /\ len = 0
Next == len < MaxPieces /\ len' = len + 1 /\ \E pc \in Pieces : sub' = sub \o pc
Clean(mode) == CleanSubject(TrimBlanks(sub), mode)
Plainly == ~HasSub(sub, "=?")
(* nothing of the subject is lost *)
Whole == \A mode \in Modes : Plainly => LET c == Clean(mode) IN TrimSpace(c.prefix \o c.title) = TrimSpace(sub)
(* a mode that removes more leaves a shorter title *)
Ordered == Plainly => Len(Clean("all").title) <= Len(Clean("patch").title) /\ Len(Clean("patch").title) <= Len(Clean("space").title)
(* cleaning a cleaned title changes nothing *)
Settled == \A mode \in Modes : Plainly => LET c == Clean(mode) IN CleanSubject(c.title, mode) = [c EXCEPT !.prefix = ""]
Emit == \A mode \in Modes : \A str \in {"From: A <a@b>\nSubject: " \o sub \o "\n\nbody"} : \A r \in {ParseHeader(str, mode)} :
          PrintT(ToJson([s |-> str, mode |-> mode, want |-> r]))
=============================================================================
