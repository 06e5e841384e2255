------------------------------ MODULE MCValidate ------------------------------
(* C14: which text fragments are consistent.  Every short fragment, with its     *)
(* recorded counts right or wrong in up to two places.                           *)
EXTENDS Strs, FiniteSets
CONSTANTS MaxLines, Wrongs

CONSTANT Ops
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
N(ls, S) == Cardinality({i \in 1..Len(ls) : ls[i] \in S})
Changes(ls) == {i \in 1..Len(ls) : ls[i] # " "}
Actual(ls) ==
  LET chg == Changes(ls)
      first == CHOOSE i \in chg : \A j \in chg : i <= j
      last == CHOOSE i \in chg : \A j \in chg : i >= j
  IN [old |-> N(ls, {" ", "-"}), new |-> N(ls, {" ", "+"}), added |-> N(ls, {"+"}), deleted |-> N(ls, {"-"}),
      lead |-> IF chg = {} THEN Len(ls) ELSE first - 1,
      trail |-> IF chg = {} THEN 0 ELSE Len(ls) - last]
Fields == {"old", "new", "added", "deleted", "lead", "trail"}
Values(v) == {v - 1, v + 1, 0, 2147483647, -v} \ {v}

(* counts recorded: the actual ones changed in at most two fields *)
Recorded(a) ==
  {a} \cup {[a EXCEPT ![f] = v] : f \in Fields, v \in UNION {Values(a[g]) : g \in Fields}}
      \cup (IF Wrongs < 2 THEN {} ELSE
            {[a EXCEPT ![f] = @ + d, ![g] = @ + e] : f \in Fields, g \in Fields, d \in {-1, 1}, e \in {-1, 1}})

(* a recorded number that is off by a multiple of 2^32, the new position, and what  *)
(* the lines contain: nothing but the numbers and the kinds of lines counts         *)
Plain == [far |-> "none", times |-> 0, npos |-> 1, text |-> "plain"]
Others == {[far |-> f, times |-> k, npos |-> n, text |-> t] :
             f \in Fields \cup {"opos", "npos"}, k \in {-1, 1, 1048576}, n \in {0, 7}, t \in {"plain"}}
          \cup {[Plain EXCEPT !.npos = n, !.text = t] : n \in {0, 1, 7}, t \in {"plain", "bare", "empty", "odd", "mixed"}}
Valid(ls, c, p, x) ==
  /\ x.far \notin Fields
  /\ \A i \in 1..Len(ls) : ls[i] \in {" ", "-", "+"}
  /\ c = Actual(ls)
  /\ (p = 0 /\ x.far # "opos" => c.old = 0)

(* a state: a fragment under construction by an environment that then checks it *)
VARIABLES ls, rec, opos, other, verdict
vars == <<ls, rec, opos, other, verdict>>
Init == ls = <<>> /\ rec = Actual(<<>>) /\ opos = 1 /\ other = Plain /\ verdict = "building"
AddLine(o) == verdict = "building" /\ Len(ls) < MaxLines /\ ls' = Append(ls, o) /\ UNCHANGED <<rec, opos, other, verdict>>
Record(r, p, x) ==
                /\ verdict = "building" /\ rec' = r /\ opos' = p /\ other' = x
                /\ verdict' = IF Valid(ls, r, p, x) THEN "valid" ELSE "invalid"
                /\ UNCHANGED ls
Next == \/ \E o \in Ops : AddLine(o)
        \/ \E r \in Recorded(Actual(ls)), p \in {0, 1, 3} : Record(r, p, Plain)
        \/ \E p \in {0, 2}, x \in Others : Record(Actual(ls), p, x)
(* the counts of a valid fragment add up *)
Consistent == verdict = "valid" =>
  /\ rec.old - rec.deleted = rec.new - rec.added
  /\ rec.lead + rec.trail <= MinOf(rec.old, rec.new)
  /\ rec.old + rec.added = Len(ls)
Emit == verdict # "building" => PrintT(ToJson([ops |-> ls, rec |-> rec, opos |-> opos, other |-> other, valid |-> verdict = "valid"]))
=============================================================================
