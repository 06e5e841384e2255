------------------------------- MODULE MCBinFile -------------------------------
(* Generated binary fragments of any size through the applier machine.          *)
EXTENDS BinaryApply
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES id, ba
F == Cases[id].fr
S == Cases[id].src
Init == \E i \in 1..Len(Cases) : id = i /\ ba = BaBegin(BaStart, Cases[i].fr, Cases[i].limit)
Next == ba.pc # "idle" /\ ba' = BaStep(ba, F, S, Cases[id].limit) /\ UNCHANGED id
Done == ba.pc = "idle"
NeverTooMuch == Bounded(ba)
AllOfIt == Done /\ ba.err = "" => Total(ba.out) = ba.most
NothingOnConflict == ba.err \in {"conflict", "limit", "size"} => ba.out = <<>>
Emit == Done => PrintT(ToJson([fr |-> F, src |-> S, ba |-> ba, limit |-> Cases[id].limit, x |-> Cases[id].x]))
=============================================================================
