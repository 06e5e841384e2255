------------------------------ MODULE BinaryApply ------------------------------
(* The binary applier.  A fragment is                                           *)
(*   [method : {"literal", "delta", "?"}, size : Big, intact : BOOLEAN,         *)
(*    actual : Big, delta : Seq(0..255)]                                        *)
(* intact/actual abstract the compressed data: whether it inflates without      *)
(* error and to how many bytes.  A literal's content is not represented; the    *)
(* bytes of a delta are.  The source is known by its size.  Output segments:    *)
(*   [k |-> "c", off, n]   n source bytes at off                                *)
(*   [k |-> "i", off, n]   n delta bytes at index off                           *)
(*   [k |-> "l", n]        the first n inflated bytes                           *)
EXTENDS Big, TLC, Json, IOUtils, SequencesExt

Seg(k, off, n) == [k |-> k, off |-> off, n |-> n]

---------------------------------------------------------------------------
(* delta sizes: septets, least significant first, high bit set if more follow *)
SizeEnd(d, p) == IF \E i \in p..Len(d) : d[i] < 128
                 THEN CHOOSE i \in p..Len(d) : d[i] < 128 /\ \A j \in p..(i - 1) : d[j] >= 128 ELSE 0
ReadSize(d, p) ==
  LET e == SizeEnd(d, p)
      s(i) == IF p + i <= e THEN d[p + i] % 128 ELSE 0
  IN IF e = 0 THEN [ok |-> FALSE, n |-> Zero, next |-> p]
     ELSE IF \E i \in (p + 9)..e : d[i] % 128 # 0 THEN [ok |-> FALSE, n |-> Zero, next |-> p]
     ELSE [ok |-> TRUE, next |-> e + 1,
           n |-> <<s(0) + s(1) * 128 + s(2) * 16384, s(3) + s(4) * 128 + s(5) * 16384,
                   s(6) + s(7) * 128 + s(8) * 16384>>]

(* copy instructions: bits 0..3 say which offset bytes follow, 4..6 which size bytes *)
Bit(op, i) == (op \div (2^i)) % 2
Present(op, i) == Bit(op, i) = 1
NumBefore(op, i) == FoldLeft(LAMBDA a, j : a + Bit(op, j - 1), 0, [j \in 1..i |-> j])
Param(d, p, op, i) == IF Present(op, i) THEN d[p + 1 + NumBefore(op, i)] ELSE 0
CopyLen(op) == NumBefore(op, 7)
CopyOff(d, p) ==
  LET op == d[p] b0 == Param(d, p, op, 0) b1 == Param(d, p, op, 1) b2 == Param(d, p, op, 2) b3 == Param(d, p, op, 3)
  IN <<b0 + b1 * 256 + (b2 % 32) * 65536, b2 \div 32 + b3 * 8, 0>>
CopySize(d, p) ==
  LET op == d[p] n == Param(d, p, op, 4) + Param(d, p, op, 5) * 256 + Param(d, p, op, 6) * 65536
  IN IF n = 0 THEN 65536 ELSE n

---------------------------------------------------------------------------
(* state of an applier: used, closed, and the call in progress *)
BaStart == [used |-> FALSE, closed |-> FALSE, pc |-> "idle", pos |-> 1, left |-> Zero,
            out |-> <<>>, err |-> "", most |-> Zero]
Stop(ba, why) == [ba EXCEPT !.pc = "idle", !.err = why]
Emitted(ba, seg, n) == IF n = Zero THEN ba ELSE [ba EXCEPT !.out = Append(@, seg)]

Unlimited == <<>>
TooBig(n, limit) == limit # Unlimited /\ Less(limit, n)

(* begin ApplyFragment(fr); fr = <<>> is a missing fragment *)
BaBegin(ba0, fr, limit) ==
  LET ba == [ba0 EXCEPT !.err = ""] IN
  IF fr = <<>> THEN Stop(ba, "missing")
  ELSE IF ba.closed THEN Stop(ba, "closed")
  ELSE IF ba.used THEN Stop(ba, "used")
  ELSE LET u == [ba EXCEPT !.used = TRUE] IN
       IF TooBig(fr.size, limit) THEN Stop(u, "limit")
       ELSE IF fr.method \notin {"literal", "delta"} THEN Stop(u, "method")
       ELSE [u EXCEPT !.pc = "inflate"]

Inflates(fr) == fr.intact /\ fr.actual = fr.size
BaInflate(ba, fr) ==
  IF ~Inflates(fr) THEN Stop([ba EXCEPT !.most = IF fr.method = "literal" THEN fr.size ELSE Zero], "data")
  ELSE IF fr.method = "literal"
       THEN Stop([Emitted(ba, Seg("l", Zero, fr.size), fr.size) EXCEPT !.most = fr.size], "")
       ELSE [ba EXCEPT !.pc = "srcsize", !.pos = 1]

BaSrcSize(ba, fr, srcLen) ==
  LET r == ReadSize(fr.delta, ba.pos) IN
  IF ~r.ok THEN Stop(ba, "size")
  ELSE IF r.n # srcLen THEN Stop(ba, "conflict")
  ELSE [ba EXCEPT !.pc = "dstsize", !.pos = r.next]
BaDstSize(ba, fr, limit) ==
  LET r == ReadSize(fr.delta, ba.pos) IN
  IF ~r.ok THEN Stop(ba, "size")
  ELSE IF TooBig(r.n, limit) THEN Stop(ba, "limit")
  ELSE [ba EXCEPT !.pc = "ops", !.pos = r.next, !.left = r.n, !.most = r.n]

(* a failing instruction may already have produced the part that is right *)
Fitting(ba, n, have) == MinB(MinB(n, ba.left), have)
BaCopy(ba, fr, srcLen) ==
  LET d == fr.delta op == d[ba.pos] IN
  IF ba.pos + CopyLen(op) > Len(d) THEN Stop(ba, "incomplete")
  ELSE LET off == CopyOff(d, ba.pos)
           n == B(CopySize(d, ba.pos))
           have == IF Leq(srcLen, off) THEN Zero ELSE Minus(srcLen, off)
           can == Fitting(ba, n, have)
           q == Emitted(ba, Seg("c", off, can), can)
       IN IF Less(srcLen, Plus(off, n)) THEN Stop(q, "outside")
          ELSE IF Less(ba.left, n) THEN Stop(q, "extra")
          ELSE [q EXCEPT !.left = Minus(@, n), !.pos = @ + 1 + CopyLen(op)]
BaInsert(ba, fr) ==
  LET d == fr.delta op == d[ba.pos]
      have == B(Len(d) - ba.pos)
      can == Fitting(ba, B(op), have)
      q == Emitted(ba, Seg("i", B(ba.pos + 1), can), can)
  IN IF ba.pos + op > Len(d) THEN Stop(q, "incomplete")
     ELSE IF Less(ba.left, B(op)) THEN Stop(q, "extra")
     ELSE [q EXCEPT !.left = Minus(@, B(op)), !.pos = @ + 1 + op]
BaOp(ba, fr, srcLen) ==
  IF ba.pos > Len(fr.delta) THEN Stop(ba, IF ba.left = Zero THEN "" ELSE "insufficient")
  ELSE IF fr.delta[ba.pos] = 0 THEN Stop(ba, "reserved")
  ELSE IF fr.delta[ba.pos] >= 128 THEN BaCopy(ba, fr, srcLen)
  ELSE BaInsert(ba, fr)

BaStep(ba, fr, srcLen, limit) ==
  CASE ba.pc = "inflate" -> BaInflate(ba, fr)
    [] ba.pc = "srcsize" -> BaSrcSize(ba, fr, srcLen)
    [] ba.pc = "dstsize" -> BaDstSize(ba, fr, limit)
    [] ba.pc = "ops" -> BaOp(ba, fr, srcLen)

BaClose(ba, srcLen) ==
  IF ba.closed \/ ba.used THEN [ba EXCEPT !.closed = TRUE, !.err = ""]
  ELSE [Emitted(ba, Seg("c", Zero, srcLen), srcLen) EXCEPT !.closed = TRUE, !.err = "", !.most = srcLen]

---------------------------------------------------------------------------
Total(out) == FoldLeft(LAMBDA a, s : Plus(a, s.n), Zero, out)
(* never more than announced; everything announced on success *)
Bounded(ba) == Leq(Total(ba.out), ba.most)

(* a size as git writes it: minimal septets *)
Septets(x) == <<x[1] % 128, (x[1] \div 128) % 128, x[1] \div 16384,
                x[2] % 128, (x[2] \div 128) % 128, x[2] \div 16384,
                x[3] % 128, (x[3] \div 128) % 128, x[3] \div 16384>>
SizeBytes(x) ==
  LET s == Septets(x)
      top == IF \E i \in 2..9 : s[i] # 0 THEN CHOOSE i \in 2..9 : s[i] # 0 /\ \A j \in (i + 1)..9 : s[j] = 0 ELSE 1
  IN [i \in 1..top |-> IF i < top THEN s[i] + 128 ELSE s[i]]
Intact(method, delta) ==
  [method |-> method, size |-> B(Len(delta)), intact |-> TRUE, actual |-> B(Len(delta)), delta |-> delta]
=============================================================================
