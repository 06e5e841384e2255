-------------------------------- MODULE Names --------------------------------
(* File names in patch headers: git's C-style quoting, prefix stripping and the *)
(* ways names are found on a header line.                                       *)
EXTENDS Strs

DevNull == "/dev/null"
Blank == {" ", "\t", "\n"}

---------------------------------------------------------------------------
(* Quoting (formatter side) *)

EscLetter == [c \in {Byte(7), Byte(8), "\t", "\n", Byte(11), "\f", "\r", "\"", "\\"} |->
  CASE c = Byte(7) -> "a" [] c = Byte(8) -> "b" [] c = "\t" -> "t" [] c = "\n" -> "n"
    [] c = Byte(11) -> "v" [] c = "\f" -> "f" [] c = "\r" -> "r"
    [] c = "\"" -> "\"" [] c = "\\" -> "\\"]
MustQuote(c) == c \in DOMAIN EscLetter \/ Ord(c) < 32 \/ Ord(c) >= 127
Octal3(n) == Byte(48 + (n \div 64)) \o Byte(48 + ((n \div 8) % 8)) \o Byte(48 + (n % 8))
QuoteChar(c) ==
  IF c \in DOMAIN EscLetter THEN "\\" \o EscLetter[c]
  ELSE IF MustQuote(c) THEN "\\" \o Octal3(Ord(c)) ELSE c
Quote(n) ==
  IF \A i \in 1..Len(n) : ~MustQuote(Ch(n, i)) THEN n
  ELSE "\"" \o Concat([i \in 1..Len(n) |-> QuoteChar(Ch(n, i))]) \o "\""

---------------------------------------------------------------------------
(* Unquoting (parser side).  s starts with a double quote.                    *)

(* index of the closing quote, 0 if there is none *)
QuoteEnd(s) ==
  LET step(a, i) ==
        IF a.at # 0 THEN a
        ELSE IF a.esc THEN [a EXCEPT !.esc = FALSE]
        ELSE IF Ch(s, i) = "\\" THEN [a EXCEPT !.esc = TRUE]
        ELSE IF Ch(s, i) = "\"" THEN [a EXCEPT !.at = i]
        ELSE a
  IN FoldLeft(step, [esc |-> FALSE, at |-> 0], [i \in 1..(Len(s) - 1) |-> i + 1]).at

LetterEsc == [c \in {"a", "b", "t", "n", "v", "f", "r", "\"", "\\"} |->
  CASE c = "a" -> Byte(7) [] c = "b" -> Byte(8) [] c = "t" -> "\t" [] c = "n" -> "\n"
    [] c = "v" -> Byte(11) [] c = "f" -> "\f" [] c = "r" -> "\r"
    [] c = "\"" -> "\"" [] c = "\\" -> "\\"]

(* the bytes between the quotes; ok is false for a malformed escape *)
Unescape(body) ==
  LET step(a, c) ==
        IF ~a.ok THEN a
        ELSE CASE a.st = 0 ->
                  IF c = "\\" THEN [a EXCEPT !.st = 1]
                  ELSE IF c = "\n" THEN [a EXCEPT !.ok = FALSE]
                  ELSE [a EXCEPT !.out = @ \o c]
             [] a.st = 1 ->
                  IF c \in DOMAIN LetterEsc
                  THEN [a EXCEPT !.st = 0, !.out = @ \o LetterEsc[c]]
                  ELSE IF c \in OctDigits THEN [a EXCEPT !.st = 2, !.v = DigitVal(c)]
                  ELSE [a EXCEPT !.ok = FALSE]
             [] a.st = 2 ->
                  IF c \in OctDigits THEN [a EXCEPT !.st = 3, !.v = @ * 8 + DigitVal(c)]
                  ELSE [a EXCEPT !.ok = FALSE]
             [] a.st = 3 ->
                  IF c \in OctDigits /\ a.v * 8 + DigitVal(c) <= 255
                  THEN [a EXCEPT !.st = 0, !.out = @ \o Byte(a.v * 8 + DigitVal(c))]
                  ELSE [a EXCEPT !.ok = FALSE]
      r == FoldLeft(step, [ok |-> TRUE, st |-> 0, v |-> 0, out |-> ""], Chars(body))
  IN [ok |-> r.ok /\ r.st = 0, out |-> r.out]

Bad == [ok |-> FALSE, name |-> "", n |-> 0]
(* n is the number of characters used *)
QuotedName(s) ==
  LET e == QuoteEnd(s) IN
  IF e <= 2 THEN Bad
  ELSE LET u == Unescape(SubSeq(s, 2, e - 1))
       IN IF u.ok THEN [ok |-> TRUE, name |-> u.out, n |-> e] ELSE Bad

UnquotedName(s, terms) ==
  LET e == IndexAny(s, terms \cup {"\n"}, 1)
      n == IF e = 0 THEN Len(s) ELSE e - 1
  IN IF n = 0 THEN Bad ELSE [ok |-> TRUE, name |-> UpTo(s, n), n |-> n]

---------------------------------------------------------------------------
(* collapse repeated slashes and drop leading components *)
CleanName(name, drop) ==
  LET step(a, i) ==
        IF Ch(name, i) = "/"
        THEN IF i < Len(name) /\ Ch(name, i + 1) = "/" THEN a
             ELSE IF a.drop > 0 THEN [drop |-> a.drop - 1, out |-> ""]
             ELSE [a EXCEPT !.out = @ \o "/"]
        ELSE [a EXCEPT !.out = @ \o Ch(name, i)]
  IN FoldLeft(step, [drop |-> drop, out |-> ""], [i \in 1..Len(name) |-> i]).out

(* everything after the first slash, "" if there is none *)
TrimTree(name) ==
  LET i == Index(name, "/", 1) IN IF i = 0 THEN "" ELSE From(name, i + 1)

(* a name at the start of s; terms ends an unquoted name *)
ParseName(s, terms, drop) ==
  LET r == IF s # "" /\ Ch(s, 1) = "\"" THEN QuotedName(s) ELSE UnquotedName(s, terms)
  IN IF ~r.ok \/ r.name = DevNull THEN r
     ELSE [r EXCEPT !.name = CleanName(@, drop)]

---------------------------------------------------------------------------
(* The default name on a "diff --git" line: the name if both sides agree, ""   *)
(* if they differ or cannot be told apart.                                      *)
Default(n) == [ok |-> TRUE, name |-> n]
NoDefault == [ok |-> FALSE, name |-> ""]
Agree(a, b) == Default(IF a = b THEN a ELSE "")

SplitEqual(first) ==
  LET hit(i) == /\ Ch(first, i) \in Blank
                /\ UpTo(first, i - 1) = TrimTree(From(first, i + 1))
      dom == 1..(Len(first) - 1)
  IN IF \E i \in dom : hit(i)
     THEN UpTo(first, (CHOOSE i \in dom : hit(i) /\ \A j \in 1..(i - 1) : ~hit(j)) - 1)
     ELSE ""

RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Blank THEN SkipBlank(s, i + 1) ELSE i

GitLineName(line) ==
  LET h == TrimSuffix(line, "\n")
      q == Index(h, "\"", 1)
  IN IF h = "" THEN Default("")
     ELSE IF q = 0 THEN Default(SplitEqual(TrimTree(h)))
     ELSE IF q > 1
     THEN IF Ch(h, q - 1) \notin Blank THEN NoDefault
          ELSE LET b == QuotedName(From(h, q)) IN
               IF ~b.ok THEN NoDefault
               ELSE Agree(TrimTree(UpTo(h, q - 2)), TrimTree(b.name))
     ELSE LET a == QuotedName(h) IN
          IF ~a.ok THEN NoDefault
          ELSE LET n == SkipBlank(h, a.n + 1) IN
               IF n > Len(h) THEN Default("")
               ELSE IF Ch(h, n) = "\""
               THEN LET b == QuotedName(From(h, n)) IN
                    IF ~b.ok THEN NoDefault ELSE Agree(TrimTree(a.name), TrimTree(b.name))
               ELSE Agree(TrimTree(a.name), TrimTree(From(h, n)))
=============================================================================
