------------------------------ MODULE MCDelivery ------------------------------
(* C20: the environment hands over the bytes of the input in pieces it chooses, *)
(* possibly empty ones, and reports the end with the last piece or after it.     *)
(* The line assembler in front of the parser produces the same lines whatever    *)
(* the pieces are, so the parser's result is the same.                           *)
EXTENDS Parser
CONSTANTS MaxCuts

NoNL == "\\ No newline at end of file\n"
Inputs == <<
  "From x\n--- a\n+++ b\t\n@@ -1 +1 @@ c\n-o\n" \o NoNL \o "+n\n" \o NoNL,
  "p\n\ndiff --git a/x b/y\nrename from x\nrename to y\nz\ndiff --git a/q b/q\nold mode 1\nnew mode 2",
  "diff --git a/b b/b\nGIT binary patch\nliteral 3\nCcmZ?O\n\ndelta 1\nA0RR91\n\n",
  "--- a\r\n+++ b\r\n@@ -1,2 +1 @@\r\n-o\r\n\n+x\n-u\n",
  "diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@\n l\n-m\n",
  "@@ -1 +1 @@\n-a\n+b\n",
  "no patch here\n\n\nat all",
  "" >>
ASSUME TLCSet(7, [t \in 1..Len(Inputs) |-> [lines |-> Lines(Inputs[t]), res |-> Result(Parse(Lines(Inputs[t])))]])
Of(text) == TLCGet(7)[text]

VARIABLES text, taken, lines, part, cuts, eof
vars == <<text, taken, lines, part, cuts, eof>>
Init == text \in 1..Len(Inputs) /\ taken = 0 /\ lines = <<>> /\ part = "" /\ cuts = <<>> /\ eof = FALSE
Size == Len(Inputs[text])

(* the assembler: complete lines leave, the rest waits for more *)
Take(chunk) ==
  LET ls == Lines(part \o chunk)
      n == Len(ls)
      open == n > 0 /\ ~HasSuffix(ls[n], "\n")
  IN IF open THEN [done |-> SubSeq(ls, 1, n - 1), part |-> ls[n]] ELSE [done |-> ls, part |-> ""]
Deliver(k, end) ==
  LET r == Take(SubSeq(Inputs[text], taken + 1, taken + k))
      last == end /\ r.part # ""
  IN /\ taken' = taken + k
     /\ lines' = lines \o r.done \o (IF last THEN <<r.part>> ELSE <<>>)
     /\ part' = IF last THEN "" ELSE r.part
     /\ cuts' = Append(cuts, k)
     /\ eof' = end
     /\ UNCHANGED text
Next == /\ ~eof
        /\ LET left == Size - taken
               sizes == IF Len(cuts) < MaxCuts THEN 0..left ELSE {left}
           IN \E k \in sizes : \/ Deliver(k, FALSE) /\ (k > 0 \/ Len(cuts) < MaxCuts)
                               \/ taken + k = Size /\ Deliver(k, TRUE)
NothingLost == Concat(lines) \o part = UpTo(Inputs[text], taken)
Whole == eof => lines = Of(text).lines
InOrder == IsPrefix(lines, Of(text).lines)
Emit == eof => PrintT(ToJson([in |-> Of(text).lines, cuts |-> cuts, res |-> Of(text).res]))
=============================================================================
