-------------------------------- MODULE MCDelta --------------------------------
(* C05, C06: every short byte sequence, as a delta, against small sources; and   *)
(* every copy opcode with characteristic operands against a huge source.         *)
EXTENDS BinaryApply
CONSTANTS MaxLen, Bytes, Heads, SrcLens, Parts

(* part "bytes": the delta grows byte by byte until the environment stops *)
VARIABLES fr, srcLen, ba, open
vars == <<fr, srcLen, ba, open>>

Empty == Intact("delta", <<>>)
Hd(k) == CASE k = 1 -> <<>> [] k = 2 -> <<2>> [] k = 3 -> <<2, 1>> [] k = 4 -> <<2, 3>> [] k = 5 -> <<130, 0, 131, 0>>
          [] k = 6 -> <<0, 2>> [] k = 7 -> <<2, 4>>

(* part "ops": opcode, operands by pattern, announced size right or off by one, source just long enough or not *)
Operand(pat, i) == CASE pat = "zero" -> 0 [] pat = "one" -> 1 [] pat = "max" -> 255 [] pat = "mix" -> (i * 53 + 19) % 256
                     [] pat = "low" -> IF i = 0 THEN 7 ELSE 0
Operands(op, pat) ==
  LET idx == SelectSeq(<<0, 1, 2, 3, 4, 5, 6>>, LAMBDA i : Present(op, i)) IN [j \in 1..Len(idx) |-> Operand(pat, idx[j])]
Huge == Plus(<<0, 2048, 0>>, B(16777216))                      \* 2^32 + 2^24
CopyInst(op, pat) == <<op>> \o Operands(op, pat)
EndOf(inst) == Plus(CopyOff(inst, 1), B(CopySize(inst, 1)))
SrcOf(inst, how) == CASE how = "huge" -> Huge [] how = "exact" -> EndOf(inst)
                      [] how = "short" -> Minus(EndOf(inst), B(1)) [] how = "far" -> B(3)
DstOf(inst, how) == LET n == B(CopySize(inst, 1)) IN
  CASE how = "right" -> n [] how = "less" -> Minus(n, B(1)) [] how = "more" -> Plus(n, B(1))
OpDelta(inst, s, d) == SizeBytes(s) \o SizeBytes(d) \o inst
OpCase(op, pat, sh, dh) == LET inst == CopyInst(op, pat) s == SrcOf(inst, sh) IN
  [fr |-> Intact("delta", OpDelta(inst, s, DstOf(inst, dh))), src |-> s]
OpCases ==
  {OpCase(op, pat, "huge", "right") : op \in 128..255, pat \in {"zero", "one", "max", "mix", "low"}}
  \cup {OpCase(op, pat, sh, "right") : op \in 128..255, pat \in {"one", "mix"}, sh \in {"exact", "short", "far"}}
  \cup {OpCase(op, "mix", "huge", dh) : op \in {128, 129, 136, 143, 144, 160, 191, 193, 255}, dh \in {"less", "more"}}

(* part "inserts": every length of insert *)
Ins(n) == <<n>> \o [i \in 1..n |-> (i * 7 + n) % 256]
InsertCases ==
  {[fr |-> Intact("delta", SizeBytes(B(5)) \o SizeBytes(B(n + e)) \o (IF cut = 0 THEN Ins(n) ELSE SubSeq(Ins(n), 1, n))),
    src |-> B(5)] : n \in 1..127, e \in {0, 1}, cut \in {0, 1}}
(* part "sizes": announced sizes over the whole range, minimal or padded, cut anywhere *)
SizeVals == {Zero, B(1), B(127), B(128), B(16383), B(16384), B(2097151), B(2097152), B(2147483647),
             <<0, 2048, 0>>, <<2097151, 2097151, 0>>, <<0, 0, 1>>, <<2097151, 2097151, 2097151>>, <<0, 0, 1048576>>}
Pad(s, k) == IF k = 0 THEN s
             ELSE [i \in 1..(Len(s) + k) |-> IF i < Len(s) THEN s[i] ELSE IF i = Len(s) THEN s[i] + 128
                                             ELSE IF i < Len(s) + k THEN 128 ELSE 0]
Overflows == {[i \in 1..n |-> IF i < n THEN 128 ELSE 1] : n \in {9, 10, 11, 12, 20}}
             \cup {[i \in 1..n |-> IF i < n THEN 255 ELSE 127] : n \in {9, 10, 11}}
             \cup {<<128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 129, 0>>}
SizeSeqs == UNION {{Pad(SizeBytes(v), k) : k \in {0, 1, 3, 8}} : v \in SizeVals} \cup Overflows
Cut(s, k) == SubSeq(s, 1, k)
SizeCases ==
  {[fr |-> Intact("delta", s \o <<0>>), src |-> x] : s \in SizeSeqs, x \in {B(1), B(128), <<0, 2048, 0>>, Zero}}
  \cup {[fr |-> Intact("delta", SizeBytes(B(3)) \o s \o <<144, 3>>), src |-> B(3)] : s \in SizeSeqs}
  \cup {[fr |-> Intact("delta", Cut(SizeBytes(B(300)) \o SizeBytes(<<5, 5, 5>>), k)), src |-> B(300)] : k \in 0..9}

Start(c) == fr = c.fr /\ srcLen = c.src /\ ba = BaBegin(BaStart, fr, Unlimited) /\ open = FALSE
Init == \/ /\ "bytes" \in Parts
           /\ \E h \in Heads, s \in SrcLens : fr = Intact("delta", Hd(h)) /\ srcLen = B(s)
           /\ ba = BaStart /\ open = TRUE
        \/ "ops" \in Parts /\ \E c \in OpCases : Start(c)
        \/ "inserts" \in Parts /\ \E c \in InsertCases : Start(c)
        \/ "sizes" \in Parts /\ \E c \in SizeCases : Start(c)
Grow == /\ open /\ Len(fr.delta) < MaxLen
        /\ \E b \in Bytes : fr' = Intact("delta", Append(fr.delta, b))
        /\ UNCHANGED <<srcLen, ba, open>>
Commit == /\ open /\ open' = FALSE /\ ba' = BaBegin(ba, fr, Unlimited) /\ UNCHANGED <<fr, srcLen>>
Work == /\ ~open /\ ba.pc # "idle" /\ ba' = BaStep(ba, fr, srcLen, Unlimited) /\ UNCHANGED <<fr, srcLen, open>>
Next == Grow \/ Commit \/ Work

Done == ~open /\ ba.pc = "idle" /\ ba.used
NeverTooMuch == Bounded(ba)
AllOfIt == Done /\ ba.err = "" => Total(ba.out) = ba.most
NothingOnConflict == ba.err \in {"conflict", "limit", "size"} => ba.out = <<>>
(* success denotes what the instructions denote, read independently: total progress over the delta *)
RECURSIVE Denotes(_, _, _)
Denotes(d, p, n) ==
  IF p > Len(d) THEN n = Zero
  ELSE IF d[p] = 0 THEN FALSE
  ELSE IF d[p] < 128 THEN p + d[p] <= Len(d) /\ Leq(B(d[p]), n) /\ Denotes(d, p + 1 + d[p], Minus(n, B(d[p])))
  ELSE /\ p + CopyLen(d[p]) <= Len(d)
       /\ Leq(Plus(CopyOff(d, p), B(CopySize(d, p))), srcLen)
       /\ Leq(B(CopySize(d, p)), n)
       /\ Denotes(d, p + 1 + CopyLen(d[p]), Minus(n, B(CopySize(d, p))))
OkIff == Done =>
  LET a == ReadSize(fr.delta, 1)
      b == ReadSize(fr.delta, a.next)
  IN (ba.err = "") <=> (a.ok /\ a.n = srcLen /\ b.ok /\ Denotes(fr.delta, b.next, b.n))
Emit == Done => PrintT(ToJson([fr |-> fr, src |-> srcLen, ba |-> ba, limit |-> Unlimited]))
=============================================================================
