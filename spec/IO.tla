----------------------------------- MODULE IO -----------------------------------
(* What an operation may do when its environment fails.  An operation reads     *)
(* from and writes to an environment that may refuse; a trace is the sequence of *)
(* what happened at that interface, ending in the operation's return:           *)
(*   [e |-> "r", res]           a read that failed ("fail"); others are silent   *)
(*   [e |-> "w", n, acc, res, good]   n bytes offered, acc accepted; res is "ok",*)
(*                              "fail" (an error), or "short" (no error, but     *)
(*                              acc < n); good: everything accepted so far is a  *)
(*                              prefix of the correct output                     *)
(*   [e |-> "ret", err, wraps, apply, conflict, files, prefix]                   *)
(* and what is expected of it without failures:                                 *)
(*   [kind, total, ok, whole, least, most]   kind is "apply" or "parse"          *)
EXTENDS Integers, Sequences, SequencesExt

IoStart == [dead |-> "", failed |-> FALSE, written |-> 0, done |-> FALSE, why |-> ""]
Reject(io, why) == [io EXCEPT !.why = why]

IoRead(io, ev) ==
  IF io.done THEN Reject(io, "reads after returning")
  ELSE [io EXCEPT !.failed = @ \/ ev.res = "fail"]

IoWrite(io, ev, want) ==
  CASE io.done -> Reject(io, "writes after returning")
    [] io.dead # "" -> Reject(io, "writes after a failed write")
    [] want.kind = "parse" -> Reject(io, "writes while parsing")
    [] ~ev.good -> Reject(io, "what was written is not a prefix of the correct result")
    [] OTHER -> [io EXCEPT !.written = @ + ev.acc, !.dead = IF ev.res = "ok" THEN "" ELSE ev.res]

Broke(io) == io.failed \/ io.dead = "fail"
IoReturn(io, ev, want) ==
  LET q == [io EXCEPT !.done = TRUE] IN
  CASE Broke(io) /\ ~ev.err -> Reject(q, "success after a failure")
    [] Broke(io) /\ ~ev.wraps -> Reject(q, "the error does not wrap the failure")
    [] io.dead = "short" /\ ~ev.err -> Reject(q, "success after a short write")
    [] want.whole /\ ev.err /\ ~ev.apply -> Reject(q, "not an apply error")
    [] ~ev.err /\ ~want.ok -> Reject(q, "success where an error is due")
    [] ~ev.err /\ want.kind = "apply" /\ io.written # want.total -> Reject(q, "success without having written everything")
    [] ev.err /\ ~Broke(io) /\ io.dead = "" /\ want.ok -> Reject(q, "an error without a reason")
    [] want.kind = "parse" /\ ~ev.prefix -> Reject(q, "files that are not a prefix of those in the patch")
    [] want.kind = "parse" /\ Broke(io) /\ ev.files > want.most -> Reject(q, "files from beyond the failure")
    [] want.kind = "parse" /\ Broke(io) /\ ev.files < want.least -> Reject(q, "files before the failure are missing")
    [] OTHER -> q

IoStep(io, ev, want) ==
  CASE ev.e = "r" -> IoRead(io, ev)
    [] ev.e = "w" -> IoWrite(io, ev, want)
    [] ev.e = "ret" -> IoReturn(io, ev, want)
=============================================================================
