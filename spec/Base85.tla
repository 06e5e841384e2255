-------------------------------- MODULE Base85 --------------------------------
(* Git's base 85: five characters stand for four bytes, most significant first. *)
(* A 32-bit word is kept as two 16-bit halves because TLC integers are 32-bit    *)
(* signed; arithmetic is modulo 2^32 as in the implementation.                   *)
EXTENDS Strs

Alpha85 == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"
ASSUME TLCSet(85, [c \in {Ch(Alpha85, i) : i \in 1..85} |-> Index(Alpha85, c, 1) - 1])
Val85 == TLCGet(85)
Is85(c) == c \in DOMAIN Val85

Step85(w, c) ==
  LET lo == w.lo * 85 + Val85[c]
      hi == w.hi * 85 + lo \div 65536
  IN [hi |-> hi % 65536, lo |-> lo % 65536]
Word85(s) == FoldLeft(Step85, [hi |-> 0, lo |-> 0], Chars(s))
(* a group that stands for more than 2^32 - 1 is not an encoding of four bytes *)
Fits85(s) ==
  LET w == FoldLeft(Step85, [hi |-> 0, lo |-> 0], Chars(UpTo(s, 4)))
      hi == w.hi * 85 + (w.lo * 85 + Val85[Ch(s, 5)]) \div 65536
  IN hi < 65536
AllFit85(s) == \A g \in 1..(Len(s) \div 5) : Fits85(SubSeq(s, 5 * g - 4, 5 * g))
Bytes4(w) == <<w.hi \div 256, w.hi % 256, w.lo \div 256, w.lo % 256>>

(* the first n bytes of an encoded sequence of groups *)
Decode85(s, n) ==
  LET groups == Len(s) \div 5
      all == FlattenSeq([g \in 1..groups |-> Bytes4(Word85(SubSeq(s, 5 * g - 4, 5 * g)))])
  IN SubSeq(all, 1, n)

(* encoding; the last group is padded with zero bytes *)
DivMod85(w) ==
  LET h == w.hi \div 85
      r == w.hi % 85
      t == r * 65536 + w.lo
  IN [q |-> [hi |-> h, lo |-> t \div 85], r |-> t % 85]
Chars85(w) ==
  LET d0 == DivMod85(w) d1 == DivMod85(d0.q) d2 == DivMod85(d1.q)
      d3 == DivMod85(d2.q) d4 == DivMod85(d3.q)
      c(d) == Ch(Alpha85, d.r + 1)
  IN c(d4) \o c(d3) \o c(d2) \o c(d1) \o c(d0)
Encode85(bs) ==
  LET at(i) == IF i <= Len(bs) THEN bs[i] ELSE 0
      groups == (Len(bs) + 3) \div 4
      word(g) == [hi |-> at(4 * g - 3) * 256 + at(4 * g - 2), lo |-> at(4 * g - 1) * 256 + at(4 * g)]
  IN Concat([g \in 1..groups |-> Chars85(word(g))])

(* length byte of a data line: 1..26 are A..Z, 27..52 are a..z *)
LenByte(n) == IF n <= 26 THEN Byte(64 + n) ELSE Byte(96 + n - 26)
LenOfByte(c) == LET o == Ord(c) IN
  IF o >= 65 /\ o <= 90 THEN o - 64 ELSE IF o >= 97 /\ o <= 122 THEN o - 96 + 26 ELSE 0

DataLines(bs) ==
  [k \in 1..((Len(bs) + 51) \div 52) |->
     LET part == SubSeq(bs, 52 * k - 51, MinOf(52 * k, Len(bs)))
     IN LenByte(Len(part)) \o Encode85(part) \o "\n"]
=============================================================================
