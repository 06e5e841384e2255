------------------------------- MODULE MCIOTrace -------------------------------
(* Traces recorded from the real code under injected faults, one step per event. *)
EXTENDS IO, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES id, now, io
T == Cases[id]
Init == \E c \in 1..Len(Cases) : id = c /\ now = 1 /\ io = IoStart
Stuck == io.why # ""
Next == ~Stuck /\ now <= Len(T.ev) /\ io' = IoStep(io, T.ev[now], T.want) /\ now' = now + 1 /\ UNCHANGED id
Over == Stuck \/ now > Len(T.ev)
Emit == Over => PrintT(ToJson([why |-> IF Stuck THEN io.why ELSE IF ~io.done THEN "never returned" ELSE "",
                               step |-> now - 1, trace |-> T]))
=============================================================================
