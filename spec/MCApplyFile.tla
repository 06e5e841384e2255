------------------------------ MODULE MCApplyFile ------------------------------
(* Recorded or generated sources and fragment lists of any size, run through    *)
(* the applier machine.                                                         *)
EXTENDS TextApply
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Sorted == TLCEval([i \in 1..Len(Cases) |-> SortFrags(Cases[i].listed)])
VARIABLES id, ap, nth
Init == \E i \in 1..Len(Cases) : id = i /\ ap = ApStart /\ nth = 0
Next == /\ ~FileDone(ap)
        /\ ap' = FileStep(Cases[id].src, ap, Sorted[id], nth)
        /\ nth' = IF ap.pc # "idle" /\ ap'.pc = "idle" /\ ap'.err.kind = "" THEN nth + 1 ELSE nth
        /\ UNCHANGED id
Done == FileDone(ap)
OkIffApplies == Done => ((ap.err.kind = "") <=> Applies(Cases[id].src, Sorted[id]))
OkIsPatched == Done /\ ap.err.kind = "" =>
                 OutLines(Cases[id].src, Sorted[id], ap.out) = Patched(Cases[id].src, Sorted[id])
(* the diff of two contents turns one into the other *)
Exact == Done /\ ~Cases[id].damaged => ap.err.kind = "" /\ Patched(Cases[id].src, Sorted[id]) = Cases[id].new
Emit == Done => PrintT(ToJson([src |-> Cases[id].src, frags |-> Sorted[id], listed |-> Cases[id].listed,
                               out |-> ap.out, err |-> ap.err]))
=============================================================================
