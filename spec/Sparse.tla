------------------------------- MODULE Sparse -------------------------------
(* A container whose tree is only partly in the store.  The root commits to *)
(* the elements, so what is missing can make an answer impossible but never *)
(* another one: an operation which finds its way does what it does on the   *)
(* whole tree, a read which does not says so.                               *)
(* Containers as in Containers; elements are not zero.                      *)
EXTENDS Ssz

C == INSTANCE Containers

HostsOf(c) == C!Hosts(W, c)
DepthOf(c) == C!Depth(W, c)

\* The tree values which hold parts of element i.
Covers(c, i) == IF C!IsPacked(c.kind) THEN ((i * c.ew) \div W)..((i * c.ew + c.ew - 1) \div W) ELSE {i}

\* The nodes passed on the way to the h-th tree value.
KeyAt(mode, q, d, h, k) ==
    LET e == d - k
        lo == IF e > 30 THEN 0 ELSE (h \div Pow2(e)) * Pow2(e)
        hi == IF e > 24 \/ lo + Pow2(e) > Len(q) THEN Len(q) ELSE lo + Pow2(e)
    IN SeqRoot(mode, W, SubSeq(q, lo + 1, hi), e)
Way(mode, c, h) == LET q == HostsOf(c)
                       d == DepthOf(c)
                   IN {KeyAt(mode, q, d, h, k) : k \in 0..(d - 1)}

Inner(mode, c) == C!InnerRoot(mode, W, c)
RootOf(mode, c) == C!Root(mode, W, c)
NodesOf(mode, c) ==
    LET q == HostsOf(c)
        t == SeqTree(mode, [i \in 1..Len(q) |-> Leaf(q[i])], DepthOf(c))
    IN IF C!IsList(c.kind) THEN Join(t, Leaf(NumVal(W, Len(c.es)))).nodes ELSE t.nodes

\* Zero trees are not there in the unit construct, and nothing is below them.
Found(mode, st, keys) == \A k \in keys : k \in st \/ (mode = "unit" /\ k = Z)
Reads(mode, c, st, i) == \A h \in Covers(c, i) : Found(mode, st, Way(mode, c, h))

\* Tree values that fit in without the tree growing.
Fits_(c, h) == DepthOf(c) > 24 \/ h < Pow2(DepthOf(c))
\* What an operation has to pass in the tree as it is.
Needs(mode, c, e) ==
    LET way(hs) == UNION {Way(mode, c, h) : h \in hs}
        n == Len(c.es)
    IN CASE e.op = "set"  -> way(Covers(c, e.i))
         [] e.op = "push" -> way({h \in Covers(c, n) : Fits_(c, h)})
         [] e.op = "pop"  -> way(Covers(c, n - 1) \cup IF n < 2 \/ ~C!IsPacked(c.kind) THEN {} ELSE Covers(c, n - 2))

\* Outcome of an operation: [judged, res, out, c, st].  A write which does
\* not find its way is not judged; a read which does not fails.
Outcome(mode, c, st, e) ==
    LET n == Len(c.es)
        no == [judged |-> FALSE, res |-> "", out |-> "", c |-> c, st |-> st]
        lost == [judged |-> TRUE, res |-> "corrupted", out |-> "", c |-> c, st |-> st]
        does == LET r == C!Apply(c, e)
                    at == CASE e.op = "set" -> Covers(c, e.i)
                            [] e.op = "push" -> Covers(c, n)
                            [] e.op = "pop" -> Covers(c, n - 1)
                    grown == ~\A h \in at : Fits_(c, h)
                    new == UNION {Way(mode, r.c, h) : h \in {g \in at : Fits_(r.c, g)}}
                        \cup (IF C!IsList(c.kind) THEN {RootOf(mode, r.c)} ELSE {})
                        \cup IF grown /\ mode # "unit" THEN {ZeroTree[W][k + 1] : k \in 1..DepthOf(c)} ELSE {}
                IN [judged |-> TRUE, res |-> "ok", out |-> r.out, c |-> r.c, st |-> st \cup new]
        same == LET r == C!Apply(c, e) IN [judged |-> TRUE, res |-> r.res, out |-> r.out, c |-> c, st |-> st]
    IN CASE e.op = "get" -> IF e.i >= n THEN same ELSE IF Reads(mode, c, st, e.i) THEN same ELSE lost
         [] e.op = "pop" -> IF n = 0 THEN same
                            ELSE IF ~Reads(mode, c, st, n - 1) THEN lost
                            ELSE IF Found(mode, st, Needs(mode, c, e)) THEN does ELSE no
         [] e.op = "set" -> IF e.i >= n THEN same ELSE IF Found(mode, st, Needs(mode, c, e)) THEN does ELSE no
         [] e.op = "push" -> IF C!Full(c) THEN same ELSE IF Found(mode, st, Needs(mode, c, e)) THEN does ELSE no

\* Opening by the root alone: lists read their length.
OpensBy(how, c, mode, st) == how = "meta" \/ ~C!IsList(c.kind) \/ RootOf(mode, c) \in st
=============================================================================
