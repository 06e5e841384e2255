-------------------------------- MODULE Strs --------------------------------
(* Byte strings.  A byte string is a TLA+ string whose characters are the 256  *)
(* code points 0..255 (one character per byte).  TLC evaluates Len, SubSeq and *)
(* \o on strings natively.  The table of characters is read from chr.json      *)
(* because TLA+ string literals cannot denote all bytes.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

CHR == JsonDeserialize(IOEnv.VERIF_CHR)
Byte(n) == CHR[n + 1]
ORD == TLCEval([c \in {CHR[i] : i \in 1..256} |-> CHOOSE n \in 0..255 : CHR[n + 1] = c])
Ord(c) == ORD[c]

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, IF i < 1 THEN 1 ELSE i, Len(s))   \* s[i..]
UpTo(s, i) == SubSeq(s, 1, IF i < Len(s) THEN i ELSE Len(s))  \* s[..i]
LastCh(s) == Ch(s, Len(s))
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN UpTo(s, Len(s) - Len(p)) ELSE s
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

(* position of the first occurrence of the string sub at or after i, 0 if none *)
Index(s, sub, i) ==
  LET at(j) == SubSeq(s, j, j + Len(sub) - 1) = sub
      dom == i..(Len(s) - Len(sub) + 1)
  IN IF \E j \in dom : at(j)
     THEN CHOOSE j \in dom : at(j) /\ \A k \in i..(j - 1) : ~at(k)
     ELSE 0
HasSub(s, sub) == Index(s, sub, 1) # 0
(* position of the first character of s in the set C at or after i, 0 if none *)
IndexAny(s, C, i) ==
  IF \E j \in i..Len(s) : Ch(s, j) \in C
  THEN CHOOSE j \in i..Len(s) : Ch(s, j) \in C /\ \A k \in i..(j - 1) : Ch(s, k) \notin C
  ELSE 0

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN "" ELSE s \o Repeat(s, n - 1)

(* lines of s, each including its newline; the last may lack one *)
Lines(s) ==
  LET nl == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : Ch(s, i) = "\n")
      n == Len(nl)
      start(k) == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
      full == [k \in 1..n |-> SubSeq(s, start(k), nl[k])]
      rest == IF n = 0 THEN s ELSE From(s, nl[n] + 1)
  IN IF rest = "" THEN full ELSE Append(full, rest)

(* white space, as strings.TrimSpace understands it on UTF-8 *)
Spaces == {" ", "\t", "\n", "\r", "\f", Byte(11)}
WideSpaces ==
  {Byte(194) \o Byte(133), Byte(194) \o Byte(160), Byte(225) \o Byte(154) \o Byte(128),
   Byte(226) \o Byte(128) \o Byte(168), Byte(226) \o Byte(128) \o Byte(169),
   Byte(226) \o Byte(128) \o Byte(175), Byte(226) \o Byte(129) \o Byte(159),
   Byte(227) \o Byte(128) \o Byte(128)}
  \cup {Byte(226) \o Byte(128) \o Byte(128 + k) : k \in 0..10}
RECURSIVE TrimLeft(_)
TrimLeft(s) ==
  IF s = "" THEN s
  ELSE IF Ch(s, 1) \in Spaces THEN TrimLeft(From(s, 2))
  ELSE IF Ord(Ch(s, 1)) >= 128 /\ \E w \in WideSpaces : HasPrefix(s, w)
       THEN TrimLeft(From(s, Len(CHOOSE w \in WideSpaces : HasPrefix(s, w)) + 1))
       ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) ==
  IF s = "" THEN s
  ELSE IF LastCh(s) \in Spaces THEN TrimRight(UpTo(s, Len(s) - 1))
  ELSE IF Ord(LastCh(s)) >= 128 /\ \E w \in WideSpaces : HasSuffix(s, w)
       THEN TrimRight(UpTo(s, Len(s) - Len(CHOOSE w \in WideSpaces : HasSuffix(s, w))))
       ELSE s
TrimSpace(s) == TrimRight(TrimLeft(s))

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == Ord(c) - 48
AllIn(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s
(* numeric order on canonical decimal strings *)
DecLess(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE \E i \in 1..Len(a) : /\ UpTo(a, i - 1) = UpTo(b, i - 1)
                            /\ DigitVal(Ch(a, i)) < DigitVal(Ch(b, i))
MaxInt64 == "9223372036854775807"

(* an unsigned decimal number below 2^63: its canonical form, or "" if s is none *)
Dec63(s) ==
  IF s = "" \/ ~AllIn(s, Digits) THEN ""
  ELSE LET c == StripZeros(s) IN IF DecLess(MaxInt64, c) THEN "" ELSE c
(* TLC integers are 32 bits wide: larger values saturate *)
BigInt == 999999999
ToInt(c) == IF Len(c) > 9 THEN BigInt
            ELSE FoldLeft(LAMBDA v, d : v * 10 + DigitVal(d), 0, Chars(c))
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s

(* an octal number as in a mode line; -1 if malformed or out of range 0..2^31-1 *)
OctDigits == {"0", "1", "2", "3", "4", "5", "6", "7"}
Oct31(s) ==
  LET d == Unsigned(s) IN
  IF d = "" \/ ~AllIn(d, OctDigits) THEN -1
  ELSE LET c == StripZeros(d) IN
       IF Len(c) > 11 \/ (Len(c) = 11 /\ Ch(c, 1) # "1") THEN -1
       ELSE LET v == FoldLeft(LAMBDA a, x : a * 8 + DigitVal(x), 0, Chars(c))
            IN IF Ch(s, 1) = "-" /\ v > 0 THEN -1 ELSE v
RECURSIVE OctStr(_)
OctStr(n) == IF n < 8 THEN Byte(48 + n) ELSE OctStr(n \div 8) \o Byte(48 + (n % 8))

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
=============================================================================
