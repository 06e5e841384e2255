------------------------------- MODULE MCStream -------------------------------
(* C25: every way to read a fragment with two readers, and every answer that is *)
(* accepted; what follows for somebody who reads to the end.                    *)
EXTENDS Stream, TLC, Json
CONSTANTS MaxReads, Asks, Sizes, Actuals, Answers

Damages == {"none", "header", "sum", "cut", "none at all"}
Frags == {fr \in [size : Sizes, actual : Actuals, damage : Damages] :
            (fr.damage = "cut" => fr.actual > 0) /\ (fr.damage = "none at all" => fr.actual = 0)}
VARIABLES fr, script, rd
vars == <<fr, script, rd>>
Init == fr = [size |-> -1] /\ script = <<>> /\ rd = <<Ready, Ready>>
Pick == fr.size < 0 /\ fr' \in Frags /\ UNCHANGED <<script, rd>>
Ask == [r : {1, 2}, n : Asks]
(* what a reader may answer: only in the configuration that checks the model *)
Answer(a) ==
  IF ~Answers THEN {rd[a.r]}
  ELSE {StreamStep(rd[a.r], [n |-> a.n, got |-> g, res |-> s, same |-> TRUE, kept |-> TRUE], fr) :
          g \in 0..(a.n), s \in {"ok", "eof", "err"}}
Read(a) == /\ fr.size >= 0 /\ Len(script) < MaxReads
           /\ script' = Append(script, a)
           /\ \E x \in Answer(a) : x.why = "" /\ rd' = [rd EXCEPT ![a.r] = x]
           /\ UNCHANGED fr
Next == Pick \/ \E a \in Ask : Read(a)

AtMostOneMore == fr.size >= 0 => \A r \in {1, 2} : rd[r].pos <= Most(fr)
EndMeansExact == fr.size >= 0 => \A r \in {1, 2} : rd[r].over = "eof" => Exact(fr) /\ rd[r].pos = fr.size
FailureMeansWrong == fr.size >= 0 => \A r \in {1, 2} : rd[r].over = "err" => ~Exact(fr)
Final == [][\A r \in {1, 2} : rd[r].over # "" => rd'[r].over = rd[r].over /\ rd'[r].pos = rd[r].pos]_vars
Apart == [][\A r \in {1, 2} : Len(script') > Len(script) /\ script'[Len(script')].r # r => rd'[r] = rd[r]]_vars
(* some answer is always possible *)
Answerable == fr.size >= 0 /\ Len(script) < MaxReads => \A a \in Ask : \E x \in Answer(a) : x.why = ""
Emit == Len(script) = MaxReads => PrintT(ToJson([fr |-> fr, script |-> script]))
=============================================================================
