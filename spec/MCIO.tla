---------------------------------- MODULE MCIO ----------------------------------
(* Every short trace of an operation that copies Total units from a source to a *)
(* destination, both of which may fail at any point: the traces a correct       *)
(* operation can produce are accepted, and every accepted trace keeps the       *)
(* promises.                                                                    *)
EXTENDS IO, TLC
CONSTANTS Total, MaxLen
Want == {[kind |-> "apply", total |-> Total, ok |-> ok, whole |-> w, least |-> 0, most |-> 0] : ok \in BOOLEAN, w \in BOOLEAN}
Writes == {[e |-> "w", n |-> n, acc |-> a, res |-> r, good |-> g] :
             n \in 1..Total, a \in 0..Total, r \in {"ok", "fail", "short"}, g \in BOOLEAN}
Sane == {w \in Writes : w.acc <= w.n /\ (w.res = "ok") = (w.acc = w.n)}
Rets == {[e |-> "ret", err |-> x, wraps |-> y, apply |-> z, files |-> 0, prefix |-> TRUE] :
           x \in BOOLEAN, y \in BOOLEAN, z \in BOOLEAN}
VARIABLES io, tr, want
Init == io = IoStart /\ tr = <<>> /\ want \in Want
Do(ev) == io' = IoStep(io, ev, want) /\ tr' = Append(tr, ev) /\ UNCHANGED want
Next == /\ io.why = "" /\ Len(tr) < MaxLen
        /\ \/ Do([e |-> "r", res |-> "fail"])
           \/ \E w \in Sane : Do(w)
           \/ \E r \in Rets : Do(r)
Is(k) == {j \in 1..Len(tr) : tr[j].e = k}
Fails == {j \in 1..Len(tr) : tr[j].e \in {"r", "w"} /\ tr[j].res = "fail"}
Bad == {j \in Is("w") : tr[j].res # "ok"}
Accepted == io.why = "" /\ io.done
Sum == FoldLeft(LAMBDA a, ev : IF ev.e = "w" THEN a + ev.acc ELSE a, 0, tr)
(* C09 *)
NeverSwallowed == Accepted => (Fails # {} => tr[Len(tr)].err /\ tr[Len(tr)].wraps)
NothingAfterFailedWrite == io.why = "" => \A j \in Bad, k \in Is("w") : k <= j
PrefixOnly == io.why = "" => \A j \in Is("w") : tr[j].good
SuccessMeansAll == Accepted /\ ~tr[Len(tr)].err => Sum = want.total /\ Bad = {} /\ want.ok
ApplyErrors == Accepted /\ want.whole /\ tr[Len(tr)].err => tr[Len(tr)].apply
(* a correct operation is never refused *)
Correct == /\ \A j \in Is("w") : tr[j].good /\ \A k \in Bad : j <= k
           /\ Is("ret") \subseteq {Len(tr)}
           /\ Fails # {} => \A k \in Fails, j \in 1..Len(tr) : j > k => tr[j].e = "ret"
           /\ \A j \in Is("ret") :
                /\ tr[j].err <=> (Fails # {} \/ Bad # {} \/ ~want.ok)
                /\ tr[j].err => tr[j].apply
                /\ Fails # {} => tr[j].wraps
                /\ ~tr[j].err => Sum = want.total
CorrectAccepted == Correct => io.why = ""
=============================================================================
