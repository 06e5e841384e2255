-------------------------------- MODULE MCEdit --------------------------------
(* C01: every short edit script, cut into fragments in every way.  An edit      *)
(* script is a sequence of items                                                *)
(*   "g" unchanged line outside the fragments   "c" context   "-"   "+"         *)
(*   "|" boundary between two fragments that touch                              *)
EXTENDS TextApply
CONSTANT MaxScript

Items == {"g", "c", "-", "+", "|"}
InHunk(x) == x \in {"c", "-", "+"}
WellFormed(s) ==
  /\ \A i \in 1..Len(s) : s[i] = "|" => /\ i > 1 /\ i < Len(s) /\ InHunk(s[i - 1]) /\ InHunk(s[i + 1])
  \* every fragment has a change
  /\ \A i \in 1..Len(s) : InHunk(s[i]) =>
        \E j \in 1..Len(s) : s[j] \in {"-", "+"} /\ \A k \in MinOf(i, j)..MaxOf(i, j) : InHunk(s[k])
Scripts == UNION {[1..n -> Items] : n \in 1..MaxScript}

HasOld(x) == x \in {"g", "c", "-"}
HasNew(x) == x \in {"g", "c", "+"}
LastWith(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i])
                     THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in (i + 1)..Len(s) : ~P(s[j]) ELSE 0
(* which final newlines may be missing: sets of items *)
Strips(s) ==
  LET o == LastWith(s, HasOld)
      n == LastWith(s, HasNew)
      one(i, j) == IF i = 0 THEN {} ELSE IF i # j /\ s[i] \in {"g", "c"} THEN {} ELSE {i}
  IN {{}} \cup {one(o, n)} \cup {one(n, o)} \cup {IF o = n THEN {} ELSE one(o, n) \cup one(n, o)}

TextOf(i, strip) == ToString(i) \o IF i \in strip THEN "" ELSE "\n"
OpOf(x) == IF x = "c" THEN " " ELSE x
Acc0 == [frags |-> <<>>, cur |-> <<>>, o0 |-> 0, n0 |-> 0, o |-> 0, n |-> 0]
CloseHunk(a) ==
  IF a.cur = <<>> THEN a
  ELSE LET oc == CountOld(a.cur) nc == CountNew(a.cur) IN
       [a EXCEPT !.cur = <<>>,
                 !.frags = Append(@, MkFrag(IF oc = 0 THEN a.o0 ELSE a.o0 + 1,
                                            IF nc = 0 THEN a.n0 ELSE a.n0 + 1, a.cur))]
AddItem(a, x, text) ==
  IF x = "|" THEN CloseHunk(a)
  ELSE LET b == IF x = "g" THEN CloseHunk(a)
                ELSE IF a.cur = <<>> THEN [a EXCEPT !.o0 = a.o, !.n0 = a.n, !.cur = <<[op |-> OpOf(x), text |-> text]>>]
                ELSE [a EXCEPT !.cur = Append(@, [op |-> OpOf(x), text |-> text])]
       IN [b EXCEPT !.o = IF HasOld(x) THEN @ + 1 ELSE @, !.n = IF HasNew(x) THEN @ + 1 ELSE @]
FragsOf(s, strip) ==
  CloseHunk(FoldLeft(LAMBDA a, i : AddItem(a, s[i], TextOf(i, strip)), Acc0, [i \in 1..Len(s) |-> i])).frags
Side(s, strip, P(_)) ==
  LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : P(s[i])) IN [j \in 1..Len(idx) |-> TextOf(idx[j], strip)]

(* position zero of a side means that the side is empty, and a file is deleted *)
(* by one fragment; two insertions at the  *)
(* same place have no order                                                     *)
Representable(fs, old, new) ==
  /\ \A i \in 1..Len(fs) : /\ fs[i].opos = 0 => old = <<>>
                           /\ fs[i].npos = 0 => new = <<>> /\ Len(fs) = 1
  /\ \A i \in 1..(Len(fs) - 1) : Before(fs[i], fs[i + 1])

Rotate(s) == Append(SubSeq(s, 2, Len(s)), s[1])
Listings(fs) == IF Len(fs) < 2 THEN {fs} ELSE IF Len(fs) = 2 THEN {fs, Reverse(fs)} ELSE {fs, Reverse(fs), Rotate(fs)}

CasesOf(s) ==
  {[src |-> Side(s, strip, HasOld), new |-> Side(s, strip, HasNew), frags |-> FragsOf(s, strip)] : strip \in Strips(s)}
Good(c) == Representable(c.frags, c.src, c.new)
Chosen == {s \in Scripts : WellFormed(s)}

VARIABLES src, new, frags, listed, ap, nth
vars == <<src, new, frags, listed, ap, nth>>
Init == \E s \in Chosen : \E c \in {c \in CasesOf(s) : Good(c)} :
          /\ src = c.src /\ new = c.new /\ frags = c.frags
          /\ listed \in Listings(c.frags)
          /\ ap = ApStart /\ nth = 0
Next == /\ ~FileDone(ap)
        /\ LET fs == SortFrags(listed) IN
           /\ ap' = FileStep(src, ap, fs, nth)
           /\ nth' = IF ap.pc # "idle" /\ ap'.pc = "idle" /\ ap'.err.kind = "" THEN nth + 1 ELSE nth
        /\ UNCHANGED <<src, new, frags, listed>>

Sorted == SortFrags(listed) = frags
NeverFails == ap.err.kind = ""
Exact == FileDone(ap) => OutLines(src, frags, ap.out) = new
Emit == FileDone(ap) => PrintT(ToJson([src |-> src, frags |-> frags, listed |-> listed, out |-> ap.out, err |-> ap.err]))
=============================================================================
