------------------------------ MODULE MCInterleave ------------------------------
(* C11: independent operations interleaved.  Each process runs one operation on *)
(* its own input; a text file and a binary fragment are shared by all.  Every   *)
(* schedule with at most MaxSwitches switches is explored; whatever the         *)
(* schedule, every operation ends as it does alone.                             *)
EXTENDS Parser, TextApply, BinaryApply
CONSTANTS MaxSwitches, Procs, Bursts

SharedText == <<"diff --git a/s b/s\n", "--- a/s\n", "+++ b/s\n",
                "@@ -4,2 +4,3 @@\n", " d\n", "-e\n", "+E\n", "+F\n",
                "@@ -1,2 +1,2 @@ fn\n", " a\n", "-b\n", "+B\n">>
SharedFrags == <<MkFrag(1, 1, <<[op |-> " ", text |-> "a\n"], [op |-> "-", text |-> "b\n"], [op |-> "+", text |-> "B\n"]>>),
                 MkFrag(4, 4, <<[op |-> " ", text |-> "d\n"], [op |-> "-", text |-> "e\n"], [op |-> "+", text |-> "E\n"], [op |-> "+", text |-> "F\n"]>>)>>
SharedBin == Intact("delta", <<9, 8, 145, 3, 4, 1, 65, 144, 3>>)

Sources == [applyX |-> <<"a\n", "b\n", "c\n", "d\n", "e\n", "f\n", "g">>,
            applyY |-> <<"a\n", "b\n", "other\n", "d\n", "X\n">>,
            applyZ |-> <<"a\n", "b\n", "zz\n", "d\n", "e\n">>,
            applyW |-> <<"b\n", "a\n">>]
BinSources == [binX |-> B(9), binY |-> B(10)]
Texts2 == [parseA |-> SharedText \o <<"diff --git \"a/q\\001\" \"b/q\\001\"\n", "old mode 100644\n", "new mode 100755\n">>,
           parseB |-> <<"From me\n", "diff --git a/y b/y\n", "GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n",
                        "--- u\n", "+++ u\n", "@@ -1,2 +1,2 @@\n", " c\n", "-o\n", "+n\n">>,
           parseC |-> <<"--- h\t1970-01-01 00:00:00 +0000\n", "+++ h\n", "@@ -0,0 +1 @@\n", "+x\n", "diff --git a/o b/p\n", "text\n">>]
Copies == [copyM |-> <<1, 2, 3>>, copyN |-> <<4, 5>>]      \* nothing to apply: blocks of the source
CopyStart == [at |-> 0, buf |-> <<>>, out |-> <<>>, done |-> FALSE]
CopyStep(s, c) == CASE c.buf # <<>> -> [c EXCEPT !.out = @ \o c.buf, !.buf = <<>>]
                    [] c.at < Len(s) -> [c EXCEPT !.buf = <<s[c.at + 1]>>, !.at = @ + 1]
                    [] OTHER -> [c EXCEPT !.done = TRUE]
Instant == {"format", "header"}                 \* no interaction with the environment

IsParse(o) == o \in DOMAIN Texts2
IsApply(o) == o \in DOMAIN Sources
IsCopy(o) == o \in DOMAIN Copies
IsBin(o) == o \in DOMAIN BinSources
Begin(o) == CASE IsParse(o) -> ParserStart(Texts2[o], TRUE)
              [] IsApply(o) -> [ap |-> ApStart, k |-> 0]
              [] IsBin(o) -> BaBegin(BaStart, SharedBin, <<>>)
              [] IsCopy(o) -> CopyStart
              [] OTHER -> [n |-> 1]
Ended(o, s) == CASE IsParse(o) -> Finished(s) [] IsApply(o) -> FileDone(s.ap) [] IsBin(o) -> s.pc = "idle" [] IsCopy(o) -> s.done [] OTHER -> s.n = 0
Turn(o, s, frags, bin) ==
  CASE IsParse(o) -> Step(s)
    [] IsApply(o) -> LET q == FileStep(Sources[o], s.ap, frags, s.k)
                     IN [ap |-> q, k |-> IF s.ap.pc # "idle" /\ q.pc = "idle" /\ q.err.kind = "" THEN s.k + 1 ELSE s.k]
    [] IsCopy(o) -> CopyStep(Copies[o], s)
    [] IsBin(o) -> BaStep(s, bin, BinSources[o], <<>>)
    [] OTHER -> [n |-> 0]
RECURSIVE Alone(_, _)
Alone(o, s) == IF Ended(o, s) THEN s ELSE Alone(o, Turn(o, s, SharedFrags, SharedBin))
AllOps == DOMAIN Texts2 \cup DOMAIN Sources \cup DOMAIN BinSources \cup DOMAIN Copies \cup Instant
ASSUME TLCSet(7, [o \in AllOps |-> Alone(o, Begin(o))])
Solo == TLCGet(7)

(* processes i < j run operations in the order of a fixed ranking, to leave out *)
(* permutations of the same set                                                 *)
Ranked == SetToSeq(AllOps)
Mixes == {f \in [1..Procs -> 1..Len(Ranked)] : \A i \in 1..(Procs - 1) : f[i] <= f[i + 1]}

VARIABLES ops, st, cur, left, sched, frags, bin
vars == <<ops, st, cur, left, sched, frags, bin>>
Init == /\ \E f \in Mixes : ops = [i \in 1..Procs |-> Ranked[f[i]]]
        /\ st = [i \in 1..Procs |-> Begin(ops[i])]
        /\ cur = 0 /\ left = 0 /\ sched = <<>> /\ frags = SharedFrags /\ bin = SharedBin
Live == {i \in 1..Procs : ~Ended(ops[i], st[i])}
(* give process p the next n turns *)
Switch == /\ left = 0 /\ Len(sched) < MaxSwitches
          /\ \E p \in Live \ {cur}, n \in Bursts : cur' = p /\ left' = n /\ sched' = Append(sched, <<p, n>>)
          /\ UNCHANGED <<ops, st, frags, bin>>
Run1 == /\ left > 0
        /\ IF cur \in Live
           THEN st' = [st EXCEPT ![cur] = Turn(ops[cur], @, frags, bin)] /\ left' = left - 1
           ELSE left' = 0 /\ UNCHANGED st
        /\ UNCHANGED <<ops, cur, sched, frags, bin>>
(* the schedule is used up: everyone finishes in order *)
Drain == /\ left = 0 /\ Len(sched) = MaxSwitches /\ Live # {}
         /\ LET p == CHOOSE i \in Live : \A j \in Live : i <= j IN
            st' = [st EXCEPT ![p] = Alone(ops[p], @)]
         /\ UNCHANGED <<ops, cur, left, sched, frags, bin>>
Next == Switch \/ Run1 \/ Drain
AsAlone == \A i \in 1..Procs : Ended(ops[i], st[i]) => st[i] = Solo[ops[i]]
SharedUntouched == [][frags' = frags /\ bin' = bin]_vars
Complete == left = 0 /\ Live = {}
(* schedules that are also run as the very first use of the library *)
Cold == MaxSwitches = 0 /\ Cardinality({ops[i] : i \in 1..Procs}) <= 2
Emit == Complete => PrintT(ToJson([ops |-> ops, sched |-> sched, cold |-> Cold]))
Outcome(o) == CASE IsParse(o) -> [in |-> Texts2[o], res |-> Result(Solo[o])]
                [] IsApply(o) -> [src |-> Sources[o], out |-> Solo[o].ap.out, err |-> Solo[o].ap.err, frags |-> SharedFrags]
                [] IsBin(o) -> [fr |-> SharedBin, src |-> BinSources[o], ba |-> Solo[o], limit |-> <<>>]
                [] IsCopy(o) -> [src |-> Copies[o], out |-> Solo[o].out]
                [] OTHER -> [n |-> 0]
ASSUME PrintT(ToJson([table |-> [o \in AllOps |-> Outcome(o)], text |-> SharedText, bin |-> SharedBin]))
=============================================================================
