---------------------------------- MODULE Big ----------------------------------
(* Numbers below 2^63 as three limbs in base 2^21, least significant first:     *)
(* TLC integers have 32 bits, and 21 bits are three septets of a delta size.    *)
EXTENDS Integers, Sequences
Base == 2097152
Zero == <<0, 0, 0>>
B(n) == <<n % Base, n \div Base, 0>>                    \* n < 2^31
Carry(a, b, c) ==
  LET b1 == b + a \div Base IN <<a % Base, b1 % Base, c + b1 \div Base>>
Plus(x, y) == Carry(x[1] + y[1], x[2] + y[2], x[3] + y[3])
Less(x, y) == x[3] < y[3] \/ (x[3] = y[3] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])))
Leq(x, y) == x = y \/ Less(x, y)
(* y - x for x <= y *)
Minus(y, x) ==
  LET a == y[1] - x[1]
      a1 == IF a < 0 THEN a + Base ELSE a
      b == y[2] - x[2] - (IF a < 0 THEN 1 ELSE 0)
      b1 == IF b < 0 THEN b + Base ELSE b
  IN <<a1, b1, y[3] - x[3] - (IF b < 0 THEN 1 ELSE 0)>>
(* small enough for an integer? *)
IsSmall(x) == x[3] = 0 /\ x[2] < 1000
Small(x) == x[2] * Base + x[1]
MinB(x, y) == IF Less(x, y) THEN x ELSE y
=============================================================================
