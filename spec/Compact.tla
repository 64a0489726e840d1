------------------------------ MODULE Compact ------------------------------
(* Compact proofs: binary trees of values, <<v>> or <<left, right>>, and    *)
(* their relation to sets of proof entries <<key, left, right>>.            *)
EXTENDS Naturals, Sequences, FiniteSets, Merkle

Single(v) == <<v>>
Pair(l, r) == <<l, r>>
IsSingle(c) == Len(c) = 1

Entry(ps, k) == {p \in ps : p[1] = k}

RECURSIVE Compacted(_, _)
Compacted(ps, root) ==
    IF Entry(ps, root) = {} THEN Single(root)
    ELSE LET p == CHOOSE p \in Entry(ps, root) : TRUE
         IN Pair(Compacted(ps, p[2]), Compacted(ps, p[3]))

RECURSIVE RootOf(_)
RootOf(c) == IF IsSingle(c) THEN c[1] ELSE ShaHash(RootOf(c[1]), RootOf(c[2]))

RECURSIVE Count(_)
Count(c) == IF IsSingle(c) THEN 1 ELSE Count(c[1]) + Count(c[2])

RECURSIVE Entries(_)
Entries(c) ==
    IF IsSingle(c) THEN {}
    ELSE LET l == RootOf(c[1])
             r == RootOf(c[2])
         IN {<<ShaHash(l, r), l, r>>} \cup Entries(c[1]) \cup Entries(c[2])

\* The entries reachable from a root.
RECURSIVE Below(_, _, _)
Below(ps, todo, seen) ==
    IF todo = {} THEN {p \in ps : p[1] \in seen}
    ELSE LET nxt == UNION {{p[2], p[3]} : p \in {p \in ps : p[1] \in todo}}
         IN Below(ps, nxt \ (seen \cup todo), seen \cup todo)
ReachedFrom(ps, root) == Below(ps, {root}, {})

\* The value at a path.
RECURSIVE ValueAt(_, _)
ValueAt(c, path) ==
    IF path = <<>> THEN <<RootOf(c)>>
    ELSE IF IsSingle(c) THEN <<>> ELSE ValueAt(c[1 + Head(path)], Tail(path))

\* A plain branch: the leaf and the values beside its path, lowest first.
RECURSIVE Branch(_, _, _)
Branch(c, sibs, path) ==
    IF path = <<>> THEN c
    ELSE LET last == path[Len(path)]
             up   == SubSeq(path, 1, Len(path) - 1)
             d    == IF last = 0 THEN Pair(c, Single(Head(sibs))) ELSE Pair(Single(Head(sibs)), c)
         IN Branch(d, Tail(sibs), up)
Plain(leaf, sibs, path) == IF Len(sibs) # Len(path) THEN <<>> ELSE <<Branch(Single(leaf), sibs, path)>>
=============================================================================
