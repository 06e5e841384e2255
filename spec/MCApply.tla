------------------------------- MODULE MCApply -------------------------------
(* C02, C03: every small list of fragments against every small source.          *)
EXTENDS TextApply
CONSTANTS MaxSrc, MaxLines1, MaxPos, Pairs, MaxLines2, MaxFirst, MaxSecond

Letters == {"a\n", "b\n"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Full == Seqs(Letters, MaxSrc)
NoEol(s) == [s EXCEPT ![Len(s)] = TrimSuffix(@, "\n")]
Sources == Full \cup {NoEol(s) : s \in Full \ {<<>>}}

AllLines == [op : {" ", "-", "+"}, text : Letters] \cup {[op |-> o, text |-> "b"] : o \in {" ", "-", "+"}}
(* only the last line of a side may lack its newline *)
Changed(ls) == \E i \in 1..Len(ls) : ls[i].op # " "
Bodies(n) == {ls \in Seqs(AllLines, n) : Changed(ls) /\ \A i \in 1..(Len(ls) - 1) :
                ls[i].text # "b" \/ (i = Len(ls) - 1 /\ ls[i].op # ls[i + 1].op)}
Frags(n) == {MkFrag(p, q, ls) : p \in 0..MaxPos, q \in {0, 1}, ls \in Bodies(n)}
Sane(fr) == (fr.opos = 0 => fr.olines = 0) /\ (fr.npos = 0 => fr.nlines = 0 \/ fr.opos = 0)
Singles == {<<f>> : f \in {f \in Frags(MaxLines1) : Sane(f)}}
Small == {f \in Frags(MaxLines2) : Sane(f) /\ f.npos = 1}
PairSet == IF Pairs THEN {fs \in Small \X Small : fs[1].opos <= fs[2].opos} ELSE {}
(* a longer fragment, then one that may lie within, touch or follow it; old lines are a, new ones b *)
Plain(n) == {ls \in Seqs({[op |-> " ", text |-> "a\n"], [op |-> "-", text |-> "a\n"], [op |-> "+", text |-> "b\n"]}, n) : Changed(ls)}
PlainFrags(n) == {fr \in {MkFrag(p, 1, ls) : p \in 0..MaxPos, ls \in Plain(n)} : Sane(fr)}
Chains == {fs \in PlainFrags(MaxFirst) \X PlainFrags(MaxSecond) : fs[1].opos <= fs[2].opos}

VARIABLES src, frags, ap, nth
vars == <<src, frags, ap, nth>>
Start == frags = SortFrags(frags) /\ ap = ApStart /\ nth = 0
Init == \/ src \in Sources /\ frags \in Singles /\ Start
        \/ MaxFirst > 0 /\ src \in {[i \in 1..k |-> "a\n"] : k \in 0..MaxSrc} /\ frags \in Chains /\ Start
        \/ src \in {s \in Sources : Len(s) <= MaxSrc} /\ frags \in PairSet /\ Start
Next == /\ ~FileDone(ap)
        /\ ap' = FileStep(src, ap, frags, nth)
        /\ nth' = IF ap.pc # "idle" /\ ap'.pc = "idle" /\ ap'.err.kind = "" THEN nth + 1 ELSE nth
        /\ UNCHANGED <<src, frags>>

OkIffApplies == FileDone(ap) => ((ap.err.kind = "") <=> Applies(src, frags))
OkIsPatched == FileDone(ap) /\ ap.err.kind = "" => OutLines(src, frags, ap.out) = Patched(src, frags)
(* the disagreement really is the first one *)
LocIsFirst == ap.err.why = "differs" =>
  /\ src[ap.err.line] # frags[ap.err.frag].lines[ap.err.fragLine].text
  /\ IsPrefix(SubSeq(src, 1, FragStart(frags[1])), OutLines(src, frags, ap.out))
OutGrows == [][Extends(ap.out, ap'.out)]_ap
Emit == FileDone(ap) => PrintT(ToJson([src |-> src, frags |-> frags, out |-> ap.out, err |-> ap.err]))
=============================================================================
