-------------------------------- MODULE Gens --------------------------------
(* A family of values of each described type.                               *)
EXTENDS Ssz

\* The value of type t with number s.
RECURSIVE Gen(_, _)
Gen(t, s) ==
    LET bytes(n) == IF s = 0 THEN Zeros(2 * n)
                    ELSE IF s = 1 THEN BytesHex([i \in 1..n |-> 255])
                    ELSE IF s = 2 THEN BytesHex([i \in 1..n |-> IF i = n THEN 128 ELSE 0])
                    ELSE IF s = 3 THEN BytesHex([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
                    ELSE BytesHex([i \in 1..n |-> (s * 37 + i * 11) % 256])
        many(n)  == [i \in 1..n |-> Gen(t.t, IF s % 3 = 0 THEN s ELSE s + i - 1)]
        per      == IF t.k = "clist" THEN (IF t.t.k = "bool" THEN 256 ELSE W \div t.t.n) ELSE 1
        \* Lengths around the interesting ones, up to the limit.
        lens     == IF per = 1 THEN <<0, 1, 2, 3, 4, 5, 7, 8, 9>>
                    ELSE <<0, 1, per - 1, per, per + 1, 2 * per - 1, 2 * per, 2 * per + 1, 4 * per + 2>>
        cut(n)   == IF t.max # <<>> /\ ~LeqBig(n, t.max[1]) THEN ToInt(t.max[1]) ELSE n
    IN CASE t.k \in {"u", "hash"} -> bytes(t.n)
         [] t.k = "bool" -> IF (s + s \div 3) % 2 = 0 THEN "00" ELSE "01"
         [] t.k \in {"unit", "ign"} -> <<>>
         [] t.k = "opt"  -> IF s % 3 = 0 THEN <<>> ELSE <<Gen(t.t, s - 1)>>
         [] t.k = "prod" -> [i \in 1..Len(t.ts) |-> Gen(t.ts[i], IF s = 0 THEN 0 ELSE s + i - 1)]
         [] t.k = "sum"  -> LET i == s % Len(t.vs)
                                ts == t.vs[i + 1].ts
                            IN [i |-> i, f |-> [j \in 1..Len(ts) |-> Gen(ts[j], (s \div Len(t.vs)) + j - 1)]]
         [] t.k \in {"arr", "carr"} -> many(t.n)
         [] t.k \in {"list", "clist"} -> many(cut(lens[1 + (s % Len(lens))]))
=============================================================================
