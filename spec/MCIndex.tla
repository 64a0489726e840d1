------------------------------ MODULE MCIndex ------------------------------
(* All indices of a small tree and all operations on them.                  *)
EXTENDS Paths, FiniteSets, TLC, Json, Sha

CONSTANTS Depth, PairDepth

VARIABLES p
vars == <<p>>

RECURSIVE PathsTo(_)
PathsTo(d) == IF d = 0 THEN {<<>>}
              ELSE LET s == PathsTo(d - 1) IN s \cup {Append(q, b) : q \in {q \in s : Len(q) = d - 1}, b \in {0, 1}}
All == PathsTo(Depth)
Small == PathsTo(PairDepth)
\* All positions of a level, from the left.
RECURSIVE Level(_)
Level(d) == IF d = 0 THEN << <<>> >> ELSE
            LET s == Level(d - 1) IN [i \in 1..(2 * Len(s)) |-> Append(s[(i + 1) \div 2], (i + 1) % 2)]
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN <<>> ELSE Append(Bits(n \div 2), n % 2)

Tell(e, r) == Emit("EDGE", ToJson([p |-> p, op |-> e, r |-> r]))
Move(e) ==
    LET r == Apply(p, e) IN
    /\ r # <<>> => Len(r[1]) <= Depth
    /\ p' = IF r = <<>> THEN p ELSE r[1]
    /\ Tell(e, r)
Ask(e, r) == UNCHANGED p /\ Tell(e, r)

Init == p = Root
Next ==
    \/ Move([op |-> "left"])
    \/ Move([op |-> "right"])
    \/ Move([op |-> "parent"])
    \/ \E q \in Small : Move([op |-> "sub", q |-> q])
    \/ \E q \in Small : Ask([op |-> "below", q |-> q], Below(p, q))
    \/ \E q \in Small : Ask([op |-> "above", q |-> q], Below(q, p))
    \/ \E k \in 0..(Depth + 1) : Ask([op |-> "select", k |-> k], Selection(p, k))
    \/ Ask([op |-> "route"], <<>>)
    \/ /\ p = Root
       /\ \/ \E n \in 0..(2 ^ Depth) : Move([op |-> "one", n |-> Bits(n)])
          \/ \E n \in 0..(2 ^ Depth) : Move([op |-> "zero", n |-> Bits(n)])
          \/ \E d \in 0..Depth : \E i \in 0..(2 ^ d - 1) : Move([op |-> "depth", n |-> Bits(i), d |-> d])
Spec == Init /\ [][Next]_vars

\* The arithmetic of numbers and that of paths are the same.
RECURSIVE Val(_)
Val(n) == IF n = <<>> THEN 0 ELSE 2 * Val(Up(n)) + n[Len(n)]
Numbers ==
    /\ Val(Num(Child(p, 0))) = 2 * Val(Num(p))
    /\ Val(Num(Child(p, 1))) = 2 * Val(Num(p)) + 1
    /\ p # Root => Val(Num(Up(p))) = Val(Num(p)) \div 2
    /\ OfNum(Bits(Val(Num(p)))) = p
    /\ Val(Inc(Num(p))) = Val(Num(p)) + 1
    /\ \A q \in Small : Val(Num(Sub_(p, q))) = (Val(Num(p)) - 1) * 2 ^ Len(q) + Val(Num(q))
Laws ==
    /\ \A b \in {0, 1} : Up(Child(p, b)) = p /\ Below(p, Child(p, b))
    /\ ~Below(p, p) /\ ~Below(p, Root)
    /\ \A q \in Small : Below(p, q) <=> \E s \in Small \ {Root} : Sub_(p, s) = q
    /\ \A q \in Small : \A b \in {0, 1} : Sub_(p, Child(q, b)) = Child(Sub_(p, q), b)
    /\ p \in Small => LET lv == Level(Len(p)) IN \A i \in 1..Len(lv) : lv[i] = AtDepth(Bits(i - 1), Len(p))
=============================================================================
