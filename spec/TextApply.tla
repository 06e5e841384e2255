------------------------------ MODULE TextApply ------------------------------
(* The text applier as a state machine.  Source lines are opaque strings (a     *)
(* line ends in a newline unless it is the last one), a fragment is             *)
(*   [opos, olines, npos, nlines : Nat, lines : Seq([op : {" ","-","+"}, text])]*)
(* Output is a sequence of segments: <<0, i, j, 0>> source lines i..j,          *)
(* <<1, i, j, f>> what lines i..j of fragment f contribute to the new side.     *)
EXTENDS Strs

NoErr == [kind |-> "", why |-> "", line |-> 0, fragLine |-> 0, frag |-> 0, short |-> 0]

(* next   number of source lines already consumed                               *)
(* pc     "idle": between calls, "lines": inside a fragment, "stop": after a    *)
(*        conflict, whose effect on later calls is not specified                *)
(* cur    fragment being applied, fi the index of its next line                 *)
ApStart == [next |-> 0, pc |-> "idle", cur |-> 0, fi |-> 0, closed |-> FALSE,
            out |-> <<>>, err |-> NoErr]

IsOld(l) == l.op \in {" ", "-"}
IsNewL(l) == l.op \in {" ", "+"}
CountOld(ls) == Len(SelectSeq(ls, IsOld))
CountNew(ls) == Len(SelectSeq(ls, IsNewL))
FragValid(fr) ==
  /\ fr.olines = CountOld(fr.lines) /\ fr.nlines = CountNew(fr.lines)
  /\ (fr.opos = 0 => fr.olines = 0)
  /\ \A i \in 1..Len(fr.lines) : fr.lines[i].op \in {" ", "-", "+"}

(* first source line of the fragment, counted from zero *)
FragStart(fr) == IF fr.olines = 0 THEN fr.opos ELSE MaxOf(fr.opos - 1, 0)
FragEnd(fr) == FragStart(fr) + fr.olines

Refuse(ap, why) == [ap EXCEPT !.err = [NoErr EXCEPT !.kind = "refused", !.why = why]]
ConflictAt(ap, why, line, fl, short) ==
  [ap EXCEPT !.pc = "stop", !.err = [kind |-> "conflict", why |-> why, line |-> line, fragLine |-> fl,
                                     frag |-> ap.cur, short |-> short]]

(* begin a call that applies fragment f (fr) *)
ApBegin(src, ap0, f, fr, valid) ==
  LET ap == [ap0 EXCEPT !.cur = f, !.err = NoErr] IN
  CASE ap.closed -> Refuse(ap, "closed")
    [] ~valid -> Refuse(ap, "invalid")
    [] FragStart(fr) < ap.next -> [Refuse(ap, "overlap") EXCEPT !.err.kind = "conflict"]
    [] fr.opos = 0 /\ src # <<>> -> [ConflictAt(ap, "create", 0, 0, 0) EXCEPT !.pc = ap0.pc]
    [] OTHER -> [ap EXCEPT !.pc = "lead", !.fi = 1]

(* copy the unchanged lines before the fragment *)
ApLead(src, ap, fr) ==
  LET s == FragStart(fr)
      e == MinOf(s, Len(src))
      q == [ap EXCEPT !.next = e,
                      !.out = IF e > ap.next THEN Append(@, <<0, ap.next + 1, e, 0>>) ELSE @]
  IN IF s > Len(src) THEN ConflictAt(q, "short", Len(src) + 1, 0, Len(src) + 1)
     ELSE [q EXCEPT !.pc = "lines"]

AddNew(out, f, i) ==
  IF out = <<>> THEN <<<<1, i, i, f>>>>
  ELSE LET n == Len(out) s == out[n] IN
       IF s[1] = 1 /\ s[4] = f /\ s[3] < i THEN [out EXCEPT ![n] = <<1, s[2], i, f>>] ELSE Append(out, <<1, i, i, f>>)

(* one line of the fragment *)
ApLine(src, ap, fr) ==
  LET l == fr.lines[ap.fi]
      short == IF FragEnd(fr) > Len(src) THEN Len(src) + 1 ELSE 0
      q == [ap EXCEPT !.fi = @ + 1,
                      !.next = IF IsOld(l) THEN @ + 1 ELSE @,
                      !.out = IF IsNewL(l) THEN AddNew(@, ap.cur, ap.fi) ELSE @]
  IN IF ~IsOld(l) THEN q
     ELSE IF ap.next >= Len(src) THEN ConflictAt(ap, "short", Len(src) + 1, 0, short)
     ELSE IF src[ap.next + 1] # l.text THEN ConflictAt(ap, "differs", ap.next + 1, ap.fi, short)
     ELSE q

(* all lines done *)
ApEnd(src, ap, fr) ==
  IF fr.npos = 0 /\ fr.nlines = 0 /\ ap.next < Len(src)
  THEN ConflictAt(ap, "leftover", ap.next + 1, 0, 0)
  ELSE [ap EXCEPT !.pc = "idle", !.cur = 0, !.fi = 0]

ApStep(src, ap, fr) ==
  CASE ap.pc = "lead" -> ApLead(src, ap, fr)
    [] ap.pc = "lines" -> IF ap.fi > Len(fr.lines) THEN ApEnd(src, ap, fr) ELSE ApLine(src, ap, fr)

ApClose(src, ap) ==
  IF ap.closed THEN [ap EXCEPT !.err = NoErr]
  ELSE [ap EXCEPT !.closed = TRUE, !.err = NoErr, !.next = Len(src),
                  !.out = IF ap.next < Len(src) THEN Append(@, <<0, ap.next + 1, Len(src), 0>>) ELSE @]

(* a whole file: fragments in order of position, then close *)
Before(a, b) == a.opos < b.opos \/ (a.opos = b.opos /\ a.olines > 0 /\ b.olines = 0)
RECURSIVE InsertFrag(_, _, _)
InsertFrag(fs, order, i) ==          \* stable insertion of index i
  IF order = <<>> \/ ~Before(fs[i], fs[Last(order)]) THEN Append(order, i)
  ELSE Append(InsertFrag(fs, SubSeq(order, 1, Len(order) - 1), i), Last(order))
SortFrags(fs) ==
  LET o == FoldLeft(LAMBDA acc, i : InsertFrag(fs, acc, i), <<>>, [i \in 1..Len(fs) |-> i])
  IN [k \in 1..Len(fs) |-> fs[o[k]]]

(* whole-file step on sorted fragments; cur is the last fragment begun *)
FileStep(src, ap, fs, k) ==       \* k: fragments completed so far
  IF ap.pc = "idle"
  THEN IF k = Len(fs) THEN ApClose(src, ap) ELSE ApBegin(src, ap, k + 1, fs[k + 1], FragValid(fs[k + 1]))
  ELSE ApStep(src, ap, fs[ap.cur])
FileDone(ap) == ap.closed \/ ap.err.kind # ""

---------------------------------------------------------------------------
(* What applying means, without reference to the machine *)
Texts(ls) == [i \in 1..Len(ls) |-> ls[i].text]
OldSide(fr) == Texts(SelectSeq(fr.lines, IsOld))
NewSide(fr) == Texts(SelectSeq(fr.lines, IsNewL))
EndBefore(fs, k) == IF k = 1 THEN 0 ELSE FragEnd(fs[k - 1])
Applies(src, fs) ==
  \A k \in 1..Len(fs) :
    LET fr == fs[k] IN
    /\ FragValid(fr)
    /\ FragStart(fr) >= EndBefore(fs, k)
    /\ FragEnd(fr) <= Len(src)
    /\ SubSeq(src, FragStart(fr) + 1, FragEnd(fr)) = OldSide(fr)
    /\ (fr.opos = 0 => src = <<>>)
    /\ (fr.npos = 0 /\ fr.nlines = 0 => FragEnd(fr) = Len(src))
RECURSIVE PatchedFrom(_, _, _)
PatchedFrom(src, fs, k) ==
  IF k > Len(fs) THEN SubSeq(src, EndBefore(fs, k) + 1, Len(src))
  ELSE SubSeq(src, EndBefore(fs, k) + 1, FragStart(fs[k])) \o NewSide(fs[k]) \o PatchedFrom(src, fs, k + 1)
Patched(src, fs) == PatchedFrom(src, fs, 1)

(* the lines a segmented output denotes *)
SegLines(src, fs, seg) == IF seg[1] = 0 THEN SubSeq(src, seg[2], seg[3])
                          ELSE Texts(SelectSeq(SubSeq(fs[seg[4]].lines, seg[2], seg[3]), IsNewL))
OutLines(src, fs, out) == FoldLeft(LAMBDA acc, seg : acc \o SegLines(src, fs, seg), <<>>, out)

(* output is only ever extended *)
Extends(a, b) ==
  \/ a = b \/ IsPrefix(a, b)
  \/ LET n == Len(a) IN /\ n > 0 /\ Len(b) = n /\ SubSeq(a, 1, n - 1) = SubSeq(b, 1, n - 1)
                        /\ a[n][1] = b[n][1] /\ a[n][2] = b[n][2] /\ a[n][3] < b[n][3] /\ a[n][4] = b[n][4]

(* frags as records with counts *)
MkFrag(opos, npos, lines) ==
  [opos |-> opos, olines |-> CountOld(lines), npos |-> npos, nlines |-> CountNew(lines), lines |-> lines]
=============================================================================
