---------------------------------- MODULE Cost ----------------------------------
(* C29: what applying may cost.  An observer of the source adds up the bytes it   *)
(* delivers; they stay within a few times the bytes of the source, and a constant *)
(* for every fragment.                                                            *)
EXTENDS Integers, Sequences
CONSTANTS Times, Each, Spare            \* Each: bytes for a fragment or instruction
CostStart == [spent |-> 0, reads |-> 0, why |-> ""]
Budget(w) == Times * (w.size + w.out) + Each * (w.frags + Spare)
CostStep(c, n, w) ==
  LET d == [c EXCEPT !.spent = @ + n, !.reads = @ + 1]
  IN IF n < 0 \/ n > w.size THEN [d EXCEPT !.why = "delivered more than there is"]
     ELSE IF d.spent > Budget(w) THEN [d EXCEPT !.why = "reads the source over and over"]
     ELSE d
=============================================================================
