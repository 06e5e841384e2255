-------------------------------- MODULE MCCalls --------------------------------
(* C04: every short sequence of calls on one text applier, with a writer that   *)
(* may fail in one of them.                                                     *)
EXTENDS TextApply
CONSTANTS MaxCalls

L(n) == ToString(n) \o "\n"
ln(o, t) == [op |-> o, text |-> t]
FRAGS == <<
  MkFrag(1, 1, <<ln("-", L(1)), ln("+", "x\n")>>),
  MkFrag(2, 2, <<ln(" ", L(2)), ln("-", L(3)), ln("+", "y\n")>>),
  MkFrag(3, 4, <<ln("+", "z\n")>>),
  MkFrag(4, 4, <<ln(" ", L(4)), ln("+", "w\n"), ln(" ", "5")>>),
  MkFrag(2, 3, <<ln("+", "m\n")>>),
  MkFrag(4, 5, <<ln("+", "n\n"), ln("+", "o\n")>>),
  MkFrag(5, 4, <<ln("-", "5")>>),
  MkFrag(5, 6, <<ln("+", "end\n")>>),
  MkFrag(0, 1, <<ln("+", "new\n")>>),
  MkFrag(1, 0, <<ln("-", L(1))>>),                         \* says the file is empty afterwards
  MkFrag(3, 3, <<ln(" ", L(3)), ln("-", "differs\n")>>),
  MkFrag(5, 5, <<ln(" ", "5"), ln("+", "no\n"), ln("-", L(6))>>),
  MkFrag(9, 9, <<ln("+", "far\n")>>),
  [MkFrag(1, 1, <<ln("-", L(1))>>) EXCEPT !.olines = 2],   \* the remaining ones are invalid
  [MkFrag(2, 2, <<ln("+", L(1))>>) EXCEPT !.nlines = 0],
  MkFrag(0, 1, <<ln("-", L(1)), ln("+", "x\n")>>),
  MkFrag(3, 3, <<ln(" ", L(3)), ln("?", L(4))>>) >>
Nil == Len(FRAGS) + 1                                       \* a missing fragment
CloseCall == 0
Sources == {<<L(1), L(2), L(3), L(4), "5">>, <<L(1)>>, <<>>}

VARIABLES src, ap, hist, busy,
          was,      \* the applier at the start of the call
          fault,    \* whether the writer fails in this call, before accepting anything
          lost      \* the output is no longer specified (calls after a failed application)
vars == <<src, ap, hist, busy, was, fault, lost>>
Init == src \in Sources /\ ap = ApStart /\ hist = <<>> /\ busy = FALSE /\ was = ApStart /\ fault = FALSE /\ lost = FALSE

Kind(a) == IF a.err.kind = "" THEN "ok" ELSE IF a.pc = "stop" /\ ~a.closed THEN "conflict"
           ELSE IF a.err.kind = "conflict" THEN "collides" ELSE "refused"
Over == Len(hist) = MaxCalls
Valid(f) == f # Nil /\ FragValid(FRAGS[f])
FragOf(f) == IF f = Nil THEN FRAGS[1] ELSE FRAGS[f]
NoFaultYet == \A i \in 1..Len(hist) : ~hist[i].fault
Spoilt == ap.pc = "stop" /\ ~ap.closed      \* an application failed after it began

(* the call c ends in state a; a writer that fails is noticed if anything was to be written *)
(* (if there is a conflict as well, either may be noticed first)                          *)
Finish(c, w, a, flt) ==
  IF flt /\ a.out # w.out
  THEN /\ ap' = [a EXCEPT !.out = w.out, !.pc = "stop", !.err = NoErr]
       /\ hist' = Append(hist, [call |-> c, fault |-> TRUE, kind |-> IF Kind(a) = "ok" THEN "failed" ELSE "either"])
  ELSE ap' = a /\ hist' = Append(hist, [call |-> c, kind |-> Kind(a), fault |-> flt])

CallApply(f, flt) ==
  /\ ~busy /\ ~Over /\ ~Spoilt
  /\ flt => Valid(f) /\ ~ap.closed /\ NoFaultYet
  /\ was' = ap /\ fault' = flt
  /\ LET a == ApBegin(src, ap, f, FragOf(f), Valid(f)) IN
     IF a.pc = "lead" THEN ap' = a /\ busy' = TRUE /\ UNCHANGED hist
     ELSE busy' = FALSE /\ Finish(f, ap, a, FALSE)
  /\ UNCHANGED <<src, lost>>
CallClose(flt) ==
  /\ ~busy /\ ~Over /\ ~Spoilt
  /\ flt => NoFaultYet
  /\ Finish(CloseCall, ap, ApClose(src, ap), flt)
  /\ UNCHANGED <<src, busy, was, fault, lost>>
Work ==
  /\ busy
  /\ LET a == ApStep(src, ap, FRAGS[ap.cur]) IN
     IF a.pc \in {"idle", "stop"}
     THEN busy' = FALSE /\ Finish(ap.cur, was, a, fault)
     ELSE ap' = a /\ UNCHANGED <<busy, hist>>
  /\ UNCHANGED <<src, was, fault, lost>>
(* after a failed application: what is applied is not specified, what is refused is *)
Late(f) ==
  /\ Spoilt /\ ~busy /\ ~Over
  /\ hist' = Append(hist, [call |-> f, kind |-> IF Valid(f) THEN "any" ELSE "refused", fault |-> FALSE])
  /\ lost' = (lost \/ Valid(f)) /\ UNCHANGED <<src, ap, busy, was, fault>>
LateClose ==
  /\ Spoilt /\ ~busy /\ ~Over
  /\ ap' = [ap EXCEPT !.closed = TRUE] /\ lost' = TRUE
  /\ hist' = Append(hist, [call |-> CloseCall, kind |-> "any", fault |-> FALSE])
  /\ UNCHANGED <<src, busy, was, fault>>
LateCalls == {1, 4, 14, Nil}
Next == \/ Work \/ LateClose \/ \E f \in LateCalls : Late(f)
        \/ \E flt \in BOOLEAN : CallClose(flt) \/ \E f \in 1..Nil : CallApply(f, flt)
Failed == \E i \in 1..Len(hist) : hist[i].kind \in {"failed", "either", "conflict"}

(* a refused call and any call after closing change neither output nor position *)
RefusedIsNoop == [][Len(hist') > Len(hist) /\ Last(hist').kind \in {"refused", "collides"} => ap'.out = ap.out /\ ap'.next = ap.next /\ ap'.closed = ap.closed]_vars
ClosedIsFinal == [][ap.closed => ap'.closed /\ ap'.out = ap.out]_vars
OutGrows == [][Extends(ap.out, ap'.out) \/ (ap'.out = was.out /\ fault)]_vars
(* closing completes the output: it is what applying the accepted fragments as a file gives *)
Accepted == LET ok == SelectSeq(hist, LAMBDA h : h.kind = "ok" /\ h.call # CloseCall)
            IN [i \in 1..Len(ok) |-> FRAGS[ok[i].call]]
SameAsFile == ap.closed /\ ~Failed => Applies(src, Accepted) /\ OutLines(src, FRAGS, ap.out) = Patched(src, Accepted)
Emit == Over /\ ~busy => PrintT(ToJson([src |-> src, out |-> ap.out, err |-> ap.err, hist |-> hist, closed |-> ap.closed, lost |-> lost]))
TheFrags == PrintT(ToJson([frags |-> FRAGS]))
ASSUME TheFrags
=============================================================================
