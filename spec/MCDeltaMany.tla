------------------------------ MODULE MCDeltaMany ------------------------------
(* C05, C06: a delta whose instructions are repeated, the announced size with     *)
(* them, makes the same content again and again: the machine is a fold over the  *)
(* instructions.  Decided here for two and three repetitions of every delta; the  *)
(* code then has to do it for so many that the instructions fill megabytes.       *)
EXTENDS MCBinFile
RECURSIVE RunBa(_, _, _)
RunBa(b, fr, src) == IF b.pc = "idle" THEN b ELSE RunBa(BaStep(b, fr, src, Unlimited), fr, src)
Body(d) == LET a == ReadSize(d, 1) b == ReadSize(d, a.next) IN SubSeq(d, b.next, Len(d))
Times(n, k) == FoldLeft(LAMBDA a, i : Plus(a, n), Zero, [i \in 1..k |-> i])
RepeatSeq(s, k) == FoldLeft(LAMBDA a, i : a \o s, <<>>, [i \in 1..k |-> i])
Many(d, src, dst, k) == SizeBytes(src) \o SizeBytes(Times(dst, k)) \o RepeatSeq(Body(d), k)
Content(d, out) == [i \in 1..Len(out) |-> IF out[i].k = "i" THEN [k |-> "i", t |-> SubSeq(d, out[i].off[1], out[i].off[1] + out[i].n[1] - 1)]
                                          ELSE [k |-> "c", t |-> <<out[i].off, out[i].n>>]]
Good == Done /\ F.method = "delta" /\ ba.err = "" /\ Len(F.delta) < 2000
RepeatsItself == Good => \A k \in {2, 3} :
  LET d == Many(F.delta, S, ba.most, k)
      r == RunBa(BaBegin(BaStart, Intact("delta", d), Unlimited), Intact("delta", d), S)
      one == Content(F.delta, ba.out)
  IN r.err = "" /\ Content(d, r.out) = RepeatSeq(one, k)
EmitGood == Good => PrintT(ToJson([fr |-> F, src |-> S, ba |-> ba, limit |-> Unlimited, x |-> Cases[id].x]))
=============================================================================
