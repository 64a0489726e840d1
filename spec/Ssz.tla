-------------------------------- MODULE Ssz --------------------------------
(* Type-directed encoding of values into merkle trees, and decoding.        *)
(*                                                                          *)
(* Types are records:                                                       *)
(*   [k |-> "u", n]        integer of n bytes     value: n bytes, hex, LE   *)
(*   [k |-> "bool"]                               value: "00" or "01"       *)
(*   [k |-> "hash", n]     n bytes                value: n bytes, hex       *)
(*   [k |-> "unit"]                               value: <<>>               *)
(*   [k |-> "ign"]         anything               value: <<>>               *)
(*   [k |-> "opt", t]                             value: <<>> or <<v>>      *)
(*   [k |-> "prod", ts]    tuples, structs        value: <<v1, v2, ..>>     *)
(*   [k |-> "sum", vs]     enums; vs[i] = [u, ts] value: [i |-> 0.., f |-> <<..>>] *)
(*   [k |-> "arr", n, t, max]   n elements, one per tree value              *)
(*   [k |-> "carr", n, t, max]  n elements, packed; t is "u" or "bool"      *)
(*   [k |-> "list", t, max] [k |-> "clist", t, max]  with the length mixed in *)
(* max is <<>> or <<limit as big number>>.                                  *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, FiniteSets, BigNat, Merkle, Json

W == 32
Z == Zero(W)
Wide(s) == s \o Zeros(2 * W - Len(s))

-----------------------------------------------------------------------------
(* Trees with their nodes <<key, left, right>>.                             *)

Tr(root, nodes) == [root |-> root, nodes |-> nodes]
Leaf(v) == Tr(v, {})
Join(a, b) == LET k == ShaHash(a.root, b.root) IN Tr(k, a.nodes \cup b.nodes \cup {<<k, a.root, b.root>>})

\* Zero trees by depth; in the unit construct there are none.
RECURSIVE BuildEmpty(_)
BuildEmpty(d) == IF d = 0 THEN Leaf(Z) ELSE LET e == BuildEmpty(d - 1) IN Join(e, e)
Empties == [d \in 1..65 |-> BuildEmpty(d - 1)]
EmptyTree(mode, d) == IF mode = "unit" THEN Leaf(Z) ELSE Empties[d + 1]

\* The tree of the sub-trees ts, d levels up.
RECURSIVE SeqTree(_, _, _)
SeqTree(mode, ts, d) ==
    IF ts = <<>> THEN EmptyTree(mode, d)
    ELSE IF d = 0 THEN ts[1]
    ELSE IF d > 30 \/ Len(ts) <= Pow2(d - 1) THEN Join(SeqTree(mode, ts, d - 1), EmptyTree(mode, d - 1))
    ELSE LET half == Pow2(d - 1)
         IN Join(SeqTree(mode, SubSeq(ts, 1, half), d - 1), SeqTree(mode, SubSeq(ts, half + 1, Len(ts)), d - 1))

\* The same built as the code builds it: level by level from a queue, pairing
\* what is there and padding an odd end.
RECURSIVE Pairs(_, _)
Pairs(ts, e) ==
    IF ts = <<>> THEN <<>>
    ELSE IF Len(ts) = 1 THEN <<Join(ts[1], e)>>
    ELSE <<Join(ts[1], ts[2])>> \o Pairs(SubSeq(ts, 3, Len(ts)), e)
RECURSIVE Levels(_, _, _, _)
Levels(mode, ts, k, d) == IF k = d THEN ts ELSE Levels(mode, Pairs(ts, EmptyTree(mode, k)), k + 1, d)
QueueTree(mode, ts, d) == IF ts = <<>> THEN EmptyTree(mode, d) ELSE Levels(mode, ts, 0, d)[1]

-----------------------------------------------------------------------------
Wid(t) == IF t.k = "bool" THEN 1 ELSE t.n     \* bytes of a packed element; bool: see Packed

RECURSIVE BitByte(_, _)
BitByte(bs, k) == IF bs = <<>> THEN 0 ELSE (IF Head(bs) = "01" THEN Pow2(k) ELSE 0) + BitByte(Tail(bs), k + 1)
RECURSIVE BitBytes(_)
BitBytes(bs) ==
    IF bs = <<>> THEN <<>>
    ELSE IF Len(bs) <= 8 THEN <<BitByte(bs, 0)>>
    ELSE <<BitByte(SubSeq(bs, 1, 8), 0)>> \o BitBytes(SubSeq(bs, 9, Len(bs)))

\* The tree values of packed elements.
Packed(t, vs) == Chunks(W, IF t.k = "bool" THEN BytesHex(BitBytes(vs)) ELSE JoinAll(vs))

\* How many tree values packed elements take.
PackCount(t, n) == IF t.k = "bool" THEN (n + 255) \div 256 ELSE (n * t.n + W - 1) \div W
PackMax(t, m) == IF t.k = "bool" THEN CeilDiv(m, 256) ELSE CeilDiv(MulAdd(m, t.n, 0), W)

SeqDepth(t, n) == IF t.max = <<>> THEN CeilLog2(n) ELSE BigCeilLog2(t.max[1])
PackDepth(t, n) == IF t.max = <<>> THEN CeilLog2(PackCount(t.t, n)) ELSE BigCeilLog2(PackMax(t.t, t.max[1]))

RECURSIVE Enc(_, _, _)
Enc(mode, t, v) ==
    LET seq(ts, vs, d) == SeqTree(mode, [i \in 1..Len(vs) |-> Enc(mode, ts[i], vs[i])], d)
        each(vs, d)    == SeqTree(mode, [i \in 1..Len(vs) |-> Enc(mode, t.t, vs[i])], d)
        pack(vs, d)    == SeqTree(mode, [i \in 1..PackCount(t.t, Len(vs)) |-> Leaf(Packed(t.t, vs)[i])], d)
        mix(tr, n)     == Join(tr, Leaf(NumVal(W, n)))
    IN CASE t.k \in {"u", "bool"} -> Leaf(Wide(v))
         [] t.k = "hash"  -> LET c == Chunks(W, v) IN SeqTree(mode, [i \in 1..Len(c) |-> Leaf(c[i])], CeilLog2(Len(c)))
         [] t.k \in {"unit", "ign"} -> Leaf(Z)
         [] t.k = "opt"   -> IF v = <<>> THEN mix(Leaf(Z), 0) ELSE mix(Enc(mode, t.t, v[1]), 1)
         [] t.k = "prod"  -> seq(t.ts, v, CeilLog2(Len(v)))
         [] t.k = "sum"   -> mix(seq(t.vs[v.i + 1].ts, v.f, CeilLog2(Len(v.f))), v.i)
         [] t.k = "arr"   -> each(v, SeqDepth(t, Len(v)))
         [] t.k = "carr"  -> pack(v, PackDepth(t, Len(v)))
         [] t.k = "list"  -> mix(each(v, SeqDepth(t, Len(v))), Len(v))
         [] t.k = "clist" -> mix(pack(v, PackDepth(t, Len(v))), Len(v))

\* Only the root, as the code computes it.
RECURSIVE QRoot(_, _, _)
QRoot(mode, t, v) ==
    LET lf(x)   == Leaf(x)
        q(rs, d) == QueueTree(mode, [i \in 1..Len(rs) |-> Leaf(rs[i])], d).root
        each(vs, d) == q([i \in 1..Len(vs) |-> QRoot(mode, t.t, vs[i])], d)
        mix(r, n) == ShaHash(r, NumVal(W, n))
    IN CASE t.k \in {"u", "bool"} -> Wide(v)
         [] t.k = "hash"  -> q(Chunks(W, v), CeilLog2(Len(Chunks(W, v))))
         [] t.k \in {"unit", "ign"} -> Z
         [] t.k = "opt"   -> IF v = <<>> THEN mix(Z, 0) ELSE mix(QRoot(mode, t.t, v[1]), 1)
         [] t.k = "prod"  -> q([i \in 1..Len(v) |-> QRoot(mode, t.ts[i], v[i])], CeilLog2(Len(v)))
         [] t.k = "sum"   -> mix(q([i \in 1..Len(v.f) |-> QRoot(mode, t.vs[v.i + 1].ts[i], v.f[i])], CeilLog2(Len(v.f))), v.i)
         [] t.k = "arr"   -> each(v, SeqDepth(t, Len(v)))
         [] t.k = "carr"  -> q(Packed(t.t, v), PackDepth(t, Len(v)))
         [] t.k = "list"  -> mix(each(v, SeqDepth(t, Len(v))), Len(v))
         [] t.k = "clist" -> mix(q(Packed(t.t, v), PackDepth(t, Len(v))), Len(v))

-----------------------------------------------------------------------------
(* Decoding from a store: st maps keys to <<left, right>>.  The result is   *)
(* <<>> when the tree is no encoding, <<v>> otherwise; parts of the tree    *)
(* which carry no information (padding) are not looked at.                  *)

AsStore(nodes) ==
    LET q == SetToSeq(nodes)
        f[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE f[i - 1] @@ (q[i][1] :> <<q[i][2], q[i][3]>>)
    IN f[Len(q)]

RECURSIVE Look(_, _, _)
Look(st, root, path) ==
    IF path = <<>> THEN <<root>>
    ELSE IF root \notin DOMAIN st THEN <<>>
    ELSE Look(st, st[root][1 + Head(path)], Tail(path))

PathOf(i, d) == [k \in 1..d |-> IF d - k > 30 THEN 0 ELSE (i \div Pow2(d - k)) % 2]

\* A length or tag: <<>> when beyond all numbers of interest.
Number(v) ==
    LET b == HexBytes(v)
    IN IF (\E i \in 5..32 : b[i] # 0) \/ b[4] > 63 THEN <<>>
       ELSE <<b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]>>

ByteBits(b) == [k \in 1..8 |-> IF (b \div Pow2(k - 1)) % 2 = 1 THEN "01" ELSE "00"]

\* All of a sequence of results, or nothing.
RECURSIVE All(_)
All(rs) ==
    IF rs = <<>> THEN << <<>> >>
    ELSE IF Head(rs) = <<>> THEN <<>>
    ELSE LET rest == All(Tail(rs)) IN IF rest = <<>> THEN <<>> ELSE << <<Head(rs)[1]>> \o rest[1] >>

RECURSIVE Dec(_, _, _)
DecAt(st, t, root, path) == LET x == Look(st, root, path) IN IF x = <<>> THEN <<>> ELSE Dec(st, t, x[1])
DecSeq(st, ts, root, d) == All([i \in 1..Len(ts) |-> DecAt(st, ts[i], root, PathOf(i - 1, d))])
RECURSIVE DecEach(_, _, _, _, _, _)
DecEach(st, t, root, d, i, n) ==      \* stops at the first that fails
    IF i = n THEN << <<>> >>
    ELSE LET x == DecAt(st, t, root, PathOf(i, d)) IN
         IF x = <<>> THEN <<>>
         ELSE LET rest == DecEach(st, t, root, d, i + 1, n)
              IN IF rest = <<>> THEN <<>> ELSE << <<x[1]>> \o rest[1] >>
DecPack(st, t, root, d, n) ==
    LET c == DecEach(st, [k |-> "hash", n |-> 32], root, d, 0, PackCount(t, n))
    IN IF c = <<>> THEN <<>>
       ELSE LET s == JoinAll(c[1])
                w == 2 * Wid(t)
            IN IF t.k = "bool"
               THEN LET b == HexBytes(s) IN << [i \in 1..n |-> ByteBits(b[(i + 7) \div 8])[((i - 1) % 8) + 1]] >>
               ELSE << [i \in 1..n |-> SubSeq(s, w * (i - 1) + 1, w * i)] >>

Dec(st, t, root) ==
    LET mixed == Look(st, root, <<0>>)      \* the value beside a length or tag
        tag   == IF mixed = <<>> THEN <<>> ELSE Number(Look(st, root, <<1>>)[1])
        long(n) == (t.max # <<>> /\ ~LeqBig(n, t.max[1])) \/ n > 100000
    IN CASE t.k = "u"    -> <<SubSeq(root, 1, 2 * t.n)>>
         [] t.k = "bool" -> <<IF SubSeq(root, 1, 2) = "00" THEN "00" ELSE "01">>
         [] t.k = "hash" -> LET c == DecEach(st, [k |-> "u", n |-> 32], root, CeilLog2(t.n \div W), 0, t.n \div W)
                            IN IF c = <<>> THEN <<>> ELSE <<JoinAll(c[1])>>
         [] t.k = "unit" -> IF root = Z THEN << <<>> >> ELSE <<>>
         [] t.k = "ign"  -> << <<>> >>
         [] t.k = "opt"  ->
              IF tag = <<0>> THEN (IF mixed[1] = Z THEN << <<>> >> ELSE <<>>)
              ELSE IF tag = <<1>> THEN LET x == Dec(st, t.t, mixed[1]) IN IF x = <<>> THEN <<>> ELSE <<x>>
              ELSE <<>>
         [] t.k = "prod" -> DecSeq(st, t.ts, root, CeilLog2(Len(t.ts)))
         [] t.k = "sum"  ->
              IF tag = <<>> THEN <<>>
              ELSE IF tag[1] >= Len(t.vs) THEN <<>>
              ELSE LET vt == t.vs[tag[1] + 1]
                       f  == DecSeq(st, vt.ts, mixed[1], CeilLog2(Len(vt.ts)))
                   IN IF f = <<>> \/ (vt.u /\ mixed[1] # Z) THEN <<>> ELSE <<[i |-> tag[1], f |-> f[1]]>>
         [] t.k = "arr"  -> DecEach(st, t.t, root, SeqDepth(t, t.n), 0, t.n)
         [] t.k = "carr" -> DecPack(st, t.t, root, PackDepth(t, t.n), t.n)
         [] t.k = "list" ->
              IF tag = <<>> THEN <<>>
              ELSE IF long(tag[1]) THEN <<>> ELSE DecEach(st, t.t, mixed[1], SeqDepth(t, tag[1]), 0, tag[1])
         [] t.k = "clist" ->
              IF tag = <<>> THEN <<>>
              ELSE IF long(tag[1]) THEN <<>> ELSE DecPack(st, t.t, mixed[1], PackDepth(t, tag[1]), tag[1])

\* A tree that is exactly the encoding of what it decodes to.
Canonical(mode, st, t, root) == LET x == Dec(st, t, root) IN x # <<>> /\ Enc(mode, t, x[1]).root = root

\* Values are compared by their text (TLC does not compare unlike values).
Same(a, b) == ToJson(a) = ToJson(b)
=============================================================================
