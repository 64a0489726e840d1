------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers (maximum lengths, indices): *)
(* little-endian sequences of digits in base 4096 without leading zeros.    *)
EXTENDS Naturals, Sequences

Base == 4096

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BigOf(n \div Base)

RECURSIVE Trim(_)
Trim(d) == IF Len(d) > 0 /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d

\* d * k + c for small k and c (k <= 2^18).
RECURSIVE MulAdd(_, _, _)
MulAdd(d, k, c) ==
    IF d = <<>> THEN BigOf(c)
    ELSE LET x == Head(d) * k + c IN Trim(<<x % Base>> \o MulAdd(Tail(d), k, x \div Base))

\* <<d \div k, d % k>> for small k.
RECURSIVE DivSmall(_, _)
DivSmall(d, k) ==
    IF d = <<>> THEN <<<<>>, 0>>
    ELSE LET hi == DivSmall(Tail(d), k)
             x  == hi[2] * Base + Head(d)
         IN <<Trim(<<x \div k>> \o hi[1]), x % k>>

\* Round-up division.
CeilDiv(d, k) == LET q == DivSmall(d, k) IN IF q[2] = 0 THEN q[1] ELSE MulAdd(q[1], 1, 1)

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

\* Smallest k with 2^k >= n.
CeilLog2(n) == IF n <= 1 THEN 0 ELSE BitLen(n - 1)

BigPred(d) ==    \* d - 1 for d > 0
    LET RECURSIVE P(_)
        P(x) == IF Head(x) > 0 THEN <<Head(x) - 1>> \o Tail(x) ELSE <<Base - 1>> \o P(Tail(x))
    IN Trim(P(d))

BigBits(d) == IF d = <<>> THEN 0 ELSE 12 * (Len(d) - 1) + BitLen(d[Len(d)])

BigCeilLog2(d) == IF d = <<>> THEN 0 ELSE BigBits(BigPred(d))

\* Comparison of an ordinary number with a big one.
Fits(d) == BigBits(d) <= 30
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE Head(d) + Base * ToInt(Tail(d))
LessBig(n, d) == ~Fits(d) \/ n < ToInt(d)
LeqBig(n, d) == ~Fits(d) \/ n <= ToInt(d)
=============================================================================
