------------------------------- MODULE MCBinCalls -------------------------------
(* C08: every short sequence of calls on one binary applier, with a writer that *)
(* may fail in one of them.                                                     *)
EXTENDS BinaryApply
CONSTANT MaxCalls
Src == B(9)
Lit(n, intact) == [method |-> "literal", size |-> B(n), intact |-> intact, actual |-> B(n), delta |-> <<>>]
FRAGS == <<
  Lit(4, TRUE),
  Intact("delta", <<9, 5, 145, 3, 4, 1, 65>>),          \* copy 4 at 3, insert "A"
  Lit(4, FALSE),                                         \* damaged
  Intact("delta", <<8, 2, 144, 2>>),                     \* for another source
  Intact("delta", <<9, 5, 145, 3, 4>>),                  \* too little
  Intact("delta", <<9, 2, 144, 4>>),                     \* too much
  Lit(100, TRUE),                                        \* over the limit
  [Lit(4, TRUE) EXCEPT !.method = "?"],
  Lit(0, TRUE) >>
Limit == B(50)
Nil == Len(FRAGS) + 1
VARIABLES ba, cur, hist, was, fault
vars == <<ba, cur, hist, was, fault>>
Init == ba = BaStart /\ cur = 0 /\ hist = <<>> /\ was = BaStart /\ fault = FALSE
Frag(f) == IF f = Nil THEN <<>> ELSE FRAGS[f]
Room == Len(hist) < MaxCalls
NoFaultYet == \A i \in 1..Len(hist) : ~hist[i].fault
(* the call c ends in state b; a writer that fails is noticed if anything was to be written *)
Finish(c, w, b, flt) ==
  IF flt /\ b.out # w.out
  THEN ba' = [b EXCEPT !.out = w.out] /\ hist' = Append(hist, [call |-> c, err |-> "failed", most |-> w.most, fault |-> TRUE])
  ELSE ba' = b /\ hist' = Append(hist, [call |-> c, err |-> b.err, most |-> b.most, fault |-> flt])
CallApply(f, flt) ==
  /\ cur = 0 /\ Room
  /\ flt => f \in {1, 2, 9} /\ NoFaultYet
  /\ was' = ba /\ fault' = flt
  /\ LET b == BaBegin(ba, Frag(f), Limit) IN
     IF b.pc = "idle" THEN Finish(f, ba, b, flt) /\ UNCHANGED cur ELSE ba' = b /\ cur' = f /\ UNCHANGED hist
Work == /\ cur # 0
        /\ LET b == BaStep(ba, Frag(cur), Src, Limit) IN
           IF b.pc = "idle" THEN Finish(cur, was, b, fault) /\ cur' = 0 ELSE ba' = b /\ UNCHANGED <<cur, hist>>
        /\ UNCHANGED <<was, fault>>
CallClose(flt) ==
  /\ cur = 0 /\ Room /\ (flt => NoFaultYet)
  /\ Finish(0, ba, BaClose(ba, Src), flt) /\ UNCHANGED <<cur, was, fault>>
Next == Work \/ \E flt \in BOOLEAN : CallClose(flt) \/ \E f \in 1..Nil : CallApply(f, flt)
(* at most one attempt gets anywhere *)
OneAttempt == Len(SelectSeq(hist, LAMBDA h : h.call # 0 /\ h.err \notin {"missing", "closed", "used"})) <= 1
UsedIsFinal == [][ba.used /\ cur = 0 => ba'.out = ba.out /\ ba'.used]_vars
ClosedIsFinal == [][ba.closed => ba'.out = ba.out /\ ba'.closed]_vars
CopiesUnused == ba.closed /\ ~ba.used /\ (\A i \in 1..Len(hist) : hist[i].err # "failed") => ba.out = <<Seg("c", Zero, Src)>>
MissingIsFree == [][Len(hist') > Len(hist) /\ Last(hist').err = "missing" => ba'.used = ba.used /\ ba'.closed = ba.closed]_vars
Emit == cur = 0 /\ ~Room => PrintT(ToJson([src |-> Src, ba |-> ba, hist |-> hist, limit |-> Limit]))
ASSUME PrintT(ToJson([frags |-> FRAGS]))
=============================================================================
