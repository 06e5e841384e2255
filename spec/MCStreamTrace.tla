----------------------------- MODULE MCStreamTrace -----------------------------
(* Recorded reads of two readers over one fragment.                             *)
EXTENDS Stream, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES id, now, rd
T == Cases[id]
Init == \E c \in 1..Len(Cases) : id = c /\ now = 1 /\ rd = <<Ready, Ready>>
Why == IF rd[1].why # "" THEN rd[1].why ELSE rd[2].why
Next == Why = "" /\ now <= Len(T.ev) /\ now' = now + 1 /\ UNCHANGED id
        /\ rd' = [rd EXCEPT ![T.ev[now].r] = StreamStep(@, T.ev[now], T.fr)]
Over == Why # "" \/ now > Len(T.ev)
(* both were read to their end *)
Unfinished == Why = "" /\ \E r \in {1, 2} : rd[r].over = ""
Emit == Over => PrintT(ToJson([why |-> IF Unfinished THEN "does not end" ELSE Why, step |-> now - 1, trace |-> T]))
=============================================================================
