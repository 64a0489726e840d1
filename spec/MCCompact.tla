------------------------------ MODULE MCCompact ------------------------------
(* Proofs grown entry by entry over a few values, compacted at every value; *)
(* all plain branches of small depth.                                       *)
EXTENDS Compact, TLC, Json

CONSTANTS Size,      \* entries
          Plains     \* depth of plain branches

W == 32
Ltr(i) == BytesHex([k \in 1..W |-> IF k = 1 THEN i ELSE 0])
Letters == {Zero(W), Ltr(17)}

VARIABLES ps, pl
vars == <<ps, pl>>

\* Any part of a proof is a proof: nodes over known values, some left out.
Vals(s) == Letters \cup {p[1] : p \in s} \cup {p[2] : p \in s} \cup {p[3] : p \in s}
Hidden == ShaHash(Ltr(17), Ltr(17))     \* a node that may stay unknown

RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN { <<>> } ELSE {Append(q, x) : q \in SeqsOf(S, n - 1), x \in S}

Init == \/ ps = {} /\ pl = <<>>
        \/ /\ ps = {}
           /\ pl \in {<<leaf, path, sibs>> : leaf \in {Ltr(5)},
                        path \in UNION {SeqsOf({0, 1}, n) : n \in 0..Plains},
                        sibs \in UNION {SeqsOf({Ltr(7), Ltr(8)}, n) : n \in 0..(Plains + 1)}}
Grow ==
    /\ pl = <<>>
    /\ Cardinality(ps) < Size
    /\ \E l, r \in Vals(ps) \cup {Hidden} :
          ps' = ps \cup {<<ShaHash(l, r), l, r>>}
    /\ UNCHANGED pl
Next == Grow
Spec == Init /\ [][Next]_vars

Told ==
    IF pl = <<>>
    THEN \A r \in Vals(ps) \cup {Hidden} :
           LET c == Compacted(ps, r) IN
           Emit("EDGE", ToJson([ps |-> ps, root |-> r, tree |-> c, n |-> Count(c), back |-> Entries(c)]))
    ELSE LET c == Plain(pl[1], pl[3], pl[2])
         IN Emit("EDGE", ToJson([leaf |-> pl[1], path |-> pl[2], sibs |-> pl[3], tree |-> c,
                                 croot |-> IF c = <<>> THEN "" ELSE RootOf(c[1])]))

RoundTrip ==
    pl = <<>> =>
    \A r \in Vals(ps) \cup {Hidden} :
        LET c == Compacted(ps, r) IN
        /\ RootOf(c) = r
        /\ Entries(c) = ReachedFrom(ps, r)
        /\ Count(c) >= 1
PlainOk ==
    pl # <<>> =>
    LET c == Plain(pl[1], pl[3], pl[2])
        n == Len(pl[2])
    IN /\ (c # <<>>) = (Len(pl[3]) = n)
       /\ c # <<>> =>
            /\ ValueAt(c[1], pl[2]) = <<pl[1]>>
            /\ \A k \in 1..n : ValueAt(c[1], Append(SubSeq(pl[2], 1, n - k), 1 - pl[2][n - k + 1])) = <<pl[3][k]>>
            /\ Count(c[1]) = n + 1
=============================================================================
