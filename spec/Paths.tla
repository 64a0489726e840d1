------------------------------- MODULE Paths -------------------------------
(* Generalized indices as what they stand for: paths of left (0) and right  *)
(* (1) choices from the root.  A number is the sequence of its binary       *)
(* digits, highest first, without leading zeros; zero is the empty one.     *)
EXTENDS Naturals, Sequences

Root == <<>>
Child(p, b) == Append(p, b)
Up(p) == SubSeq(p, 1, Len(p) - 1)
Sub_(p, q) == p \o q
ProperPrefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* The number of a path is its digits behind a leading one.
Num(p) == <<1>> \o p
IsNum(n) == n = <<>> \/ n[1] = 1
OfNum(n) == Tail(n)

RECURSIVE Inc(_)
Inc(n) == IF n = <<>> THEN <<1>>
          ELSE IF n[Len(n)] = 0 THEN Append(Up(n), 1)
          ELSE Append(Inc(Up(n)), 0)

\* The i-th position (i a number) from the left at depth d.
AtDepth(n, d) == [k \in 1..d |-> IF k <= d - Len(n) THEN 0 ELSE n[k - (d - Len(n))]]

\* Results: <<>> for none.
Apply(p, e) ==
    CASE e.op = "left" -> <<Child(p, 0)>>
      [] e.op = "right" -> <<Child(p, 1)>>
      [] e.op = "parent" -> IF p = Root THEN <<>> ELSE <<Up(p)>>
      [] e.op = "sub" -> <<Sub_(p, e.q)>>
      [] e.op = "one" -> IF e.n = <<>> THEN <<>> ELSE <<OfNum(e.n)>>
      [] e.op = "zero" -> <<OfNum(Inc(e.n))>>
      [] e.op = "depth" -> <<AtDepth(e.n, e.d)>>

\* Questions.
Below(p, q) == ProperPrefix(p, q)
Selection(p, k) == IF k = 0 \/ k > Len(p) THEN <<>> ELSE <<p[k]>>
=============================================================================
