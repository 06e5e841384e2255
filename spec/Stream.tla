-------------------------------- MODULE Stream --------------------------------
(* The reader over the inflated data of a binary fragment.  A fragment is       *)
(*   [size: declared, actual: what the data inflates to,                         *)
(*    damage: "none", "header", "sum", "cut", "none at all"]                     *)
(* A read asks for n bytes and comes back with got bytes and                     *)
(*   res: "ok", "eof" (the end), "err" (any other error)                         *)
(* same: the bytes are the next ones of the data; kept: the fragment is as       *)
(* before.  The acceptor says why a read is wrong; "" is fine.                   *)
EXTENDS Integers, Sequences

Ready == [pos |-> 0, over |-> "", idle |-> 0, why |-> ""]
Exact(fr) == fr.damage = "none" /\ fr.actual = fr.size
Most(fr) == IF fr.actual < fr.size + 1 THEN fr.actual ELSE fr.size + 1

Wrong(rd, ev, fr) ==
  CASE ev.got > ev.n -> "more than asked for"
    [] ~ev.same -> "other bytes than those of the data"
    [] ~ev.kept -> "reading changed the fragment"
    [] rd.pos + ev.got > fr.size + 1 -> "more than one byte beyond the declared size"
    [] rd.pos + ev.got > fr.actual -> "more than there is"
    [] rd.over # "" /\ ev.got > 0 -> "data after the end"
    [] rd.over = "eof" /\ ev.res = "err" -> "the end became a failure"
    [] rd.over = "err" /\ ev.res = "eof" -> "the failure became an end"
    [] rd.over # "" /\ ev.res = "ok" /\ ev.n > 0 -> "goes on after the end"
    [] ev.res = "eof" /\ ~Exact(fr) -> "wrong data ends as if it were right"
    [] ev.res = "eof" /\ rd.pos + ev.got < fr.size -> "ends early"
    [] ev.res = "err" /\ Exact(fr) -> "good data fails"
    [] ev.res = "ok" /\ ev.n > 0 /\ ev.got = 0 /\ rd.idle > 2 -> "no progress"
    [] OTHER -> ""

StreamStep(rd, ev, fr) ==
  [pos |-> rd.pos + ev.got, why |-> Wrong(rd, ev, fr),
   over |-> IF ev.res = "ok" THEN rd.over ELSE ev.res,
   idle |-> IF ev.got = 0 /\ ev.n > 0 THEN rd.idle + 1 ELSE 0]
=============================================================================
