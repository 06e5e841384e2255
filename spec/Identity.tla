------------------------------- MODULE Identity -------------------------------
(* Author identities: whitespace, quoted pairs, and the split into a name and    *)
(* an address.                                                                   *)
EXTENDS Strs
Blank == {" ", "\t", "\n", "\r"}

(* words separated by single spaces *)
NormStep(a, c) ==
  IF c \in Blank THEN [a EXCEPT !.gap = TRUE]
  ELSE [out |-> a.out \o (IF a.gap /\ a.out # "" THEN " " ELSE "") \o c, gap |-> FALSE]
NormSpace(s) == FoldLeft(NormStep, [out |-> "", gap |-> FALSE], Chars(s)).out

(* quoted strings lose their quotes; a backslash inside a quoted string or a     *)
(* comment stands for the character after it                                     *)
UnquoteStep(a, c) ==
  LET put(b) == [b EXCEPT !.out = @ \o c] IN
  IF a.esc THEN put([a EXCEPT !.esc = FALSE])
  ELSE CASE c = "\\" /\ (a.quote \/ a.depth > 0) -> [a EXCEPT !.esc = TRUE]
         [] c = "\"" /\ a.depth = 0 -> [a EXCEPT !.quote = ~@]
         [] c = "(" /\ ~a.quote -> put([a EXCEPT !.depth = @ + 1])
         [] c = ")" /\ a.depth > 0 -> put([a EXCEPT !.depth = @ - 1])
         [] OTHER -> put(a)
UnquotePairs(s) == FoldLeft(UnquoteStep, [quote |-> FALSE, depth |-> 0, esc |-> FALSE, out |-> ""], Chars(s)).out

(* last position before i, and first position from i on, of a character in C *)
LastIn(s, C, i) ==
  LET P == {j \in 1..(i - 1) : Ch(s, j) \in C} IN IF P = {} THEN 0 ELSE CHOOSE j \in P : \A k \in P : k <= j
FirstIn(s, C, i) == LET j == IndexAny(s, C, i) IN IF j = 0 THEN Len(s) + 1 ELSE j

(* the word around the first at sign, or what stands in the first angle brackets *)
SplitAddress(s) ==
  LET at == Index(s, "@", 1)
      b == LastIn(s, Blank \cup {"<"}, at)
      e == FirstIn(s, Blank \cup {">"}, at)
      head == IF b > 0 /\ Ch(s, b) = "<" THEN UpTo(s, b - 1) ELSE UpTo(s, b)
      tail == IF e <= Len(s) /\ Ch(s, e) = ">" THEN From(s, e + 1) ELSE From(s, e)
      o == Index(s, "<", 1)
      c == IF o = 0 THEN 0 ELSE Index(s, ">", o)
  IN IF at > 0 THEN [email |-> SubSeq(s, b + 1, e - 1), name |-> head \o tail]
     ELSE IF c > 0 THEN [email |-> TrimSpace(SubSeq(s, o + 1, c - 1)), name |-> UpTo(s, o - 1)]
     ELSE [email |-> "", name |-> ""]

StripParens(s) ==
  IF Len(s) >= 2 /\ HasPrefix(s, "(") /\ HasSuffix(s, ")") THEN SubSeq(s, 2, Len(s) - 1) ELSE s
IsUsable(n) == n # "" /\ \A c \in {"@", "<", ">"} : ~HasSub(n, c)
ParseIdentity(str) ==
  LET x == SplitAddress(UnquotePairs(NormSpace(str)))
      given == TrimSpace(StripParens(NormSpace(x.name)))
      name == IF IsUsable(given) THEN given ELSE x.email
  IN [ok |-> name # "" \/ x.email # "", name |-> name, email |-> x.email]
IdentityText(u) == (IF u.name = "" THEN "\"\"" ELSE u.name) \o " <" \o u.email \o ">"
=============================================================================
