---------------------------------- MODULE MCCost ----------------------------------
(* C29, the design: a reader that indexes lines block by block, asked for lines in *)
(* order, costs at most two readings of the source and a block for every request.  *)
EXTENDS Cost, TLC, SequencesExt
CONSTANTS MaxLines, MaxLen, MaxBlock
VARIABLES lens, block, indexed, eof, next, asked, cost
vars == <<lens, block, indexed, eof, next, asked, cost>>
End(n) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(lens, 1, n))
Size == End(Len(lens))
W(n) == [size |-> Size, out |-> 0, frags |-> n]
Init == /\ \E n \in 0..MaxLines : lens \in [1..n -> 1..MaxLen]
        /\ block \in 1..MaxBlock /\ indexed = 0 /\ eof = FALSE /\ next = 0 /\ asked = 0 /\ cost = CostStart
(* the index grows from the end of its last line until it has the line wanted *)
RECURSIVE Grow(_, _, _, _)
Grow(off, k, spent, want) ==      \* bytes looked at, lines indexed
  IF k >= want \/ off >= Size THEN [k |-> k, spent |-> spent, eof |-> off >= Size /\ k < want]
  ELSE LET to == IF off + block > Size THEN Size ELSE off + block
           m == CHOOSE m \in k..Len(lens) : End(m) <= to /\ (m = Len(lens) \/ End(m + 1) > to)
       IN Grow(to, m, spent + to - off, want)
Request(n) ==
  LET g == IF eof THEN [k |-> indexed, spent |-> 0, eof |-> TRUE] ELSE Grow(End(indexed), indexed, 0, next + n)
      to == IF next + n > g.k THEN g.k ELSE next + n
  IN /\ next < Len(lens)
     /\ indexed' = g.k /\ eof' = g.eof /\ next' = to /\ asked' = asked + 1
     /\ cost' = CostStep(CostStep(cost, g.spent, W(asked + 1)), End(to) - End(next), W(asked + 1))
     /\ UNCHANGED <<lens, block>>
Next == \E n \in 1..MaxLines : Request(n)
(* Times and Each of the configuration are those of the design: two readings, a block each *)
Bounded == cost.why = ""
Tight == cost.spent <= 2 * Size + (block - 1) * asked
Finishes == next <= Len(lens) /\ (next = Len(lens) => indexed = Len(lens))
=============================================================================
