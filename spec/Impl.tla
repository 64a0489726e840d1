-------------------------------- MODULE Impl --------------------------------
(* The containers as the code builds them: vectors over raw trees that grow *)
(* and shrink by one level, packed vectors over vectors, and lists that     *)
(* keep a dangling inner sequence next to an owned root.  One operator per  *)
(* operation of src/vector.rs, src/packed.rs and src/length.rs; each gives  *)
(* [db, hd, res, out].                                                      *)
(*                                                                          *)
(* Vector handle: [root, len, max] with max a small number or -1.           *)
(* Packed handle: [v, len, max, ew].   List handle: [root, in].             *)
EXTENDS Containers, Store

R4(db, hd, res, out) == [db |-> db, hd |-> hd, res |-> res, out |-> out]

VCap(hd) == IF hd.max # -1 THEN hd.max ELSE Pow2(CeilLog2(hd.len))
VDepth(hd) == CeilLog2(VCap(hd))

VSetRaw(db, w, own, hd, path, v) ==
    LET s == SetAt(db, w, own, hd.root, path, v) IN R4(s[1], [hd EXCEPT !.root = s[2]], "ok", "")

VCreate(db, mode, w, own, n, max) ==
    IF max # -1 /\ (n > max \/ max = 0)
    THEN R4(db, [root |-> Zero(w), len |-> 0, max |-> max], "invalid", "")
    ELSE LET d  == CeilLog2(IF max # -1 THEN max ELSE n)
             d1 == EmptyAt(db, mode, w, d)
             hd == [root |-> Zero(w), len |-> n, max |-> max]
         IN VSetRaw(d1, w, own, hd, <<>>, Empty(mode, w, d))

VGet(db, hd, i) ==
    IF i >= hd.len THEN R4(db, hd, "overflow", "")
    ELSE LET v == At(db, hd.root, PathTo(i, VDepth(hd)))
         IN IF v = <<>> THEN R4(db, hd, "corrupted", "") ELSE R4(db, hd, "ok", v[1])

VSet(db, w, own, hd, i, v) ==
    IF i >= hd.len THEN R4(db, hd, "overflow", "")
    ELSE VSetRaw(db, w, own, hd, PathTo(i, VDepth(hd)), v)

\* A full vector grows by a level: the new tree is built with the new element
\* in place before the old one is let go of.
VExtend(db, mode, w, own, hd, v) ==
    LET d1 == EmptyAt(db, mode, w, VDepth(hd))
        e  == Empty(mode, w, VDepth(hd))
        s1 == SetAt(d1, w, own, Zero(w), <<0>>, hd.root)
        s2 == SetAt(s1[1], w, own, s1[2], <<1>>, e)
        s3 == SetAt(s2[1], w, own, s2[2], PathTo(hd.len, VDepth(hd) + 1), v)
        s4 == SetAt(s3[1], w, own, hd.root, <<>>, Zero(w))
    IN R4(s4[1], [hd EXCEPT !.root = s3[2], !.len = @ + 1], "ok", "")

VPush(db, mode, w, own, hd, v) ==
    IF hd.len = VCap(hd)
    THEN IF hd.max # -1 THEN R4(db, hd, "overflow", "") ELSE VExtend(db, mode, w, own, hd, v)
    ELSE VSetRaw(db, w, own, [hd EXCEPT !.len = @ + 1], PathTo(hd.len, VDepth(hd)), v)

\* The highest ancestor of a path whose left-most leaf it ends in.
RECURSIVE Climb(_)
Climb(path) == IF path # <<>> /\ path[Len(path)] = 0 THEN Climb(SubSeq(path, 1, Len(path) - 1)) ELSE path

VPop(db, mode, w, own, hd) ==
    IF hd.len = 0 THEN R4(db, hd, "ok", "none")
    ELSE LET path == PathTo(hd.len - 1, VDepth(hd))
             v    == At(db, hd.root, path)
         IN IF v = <<>> THEN R4(db, hd, "corrupted", "")
            ELSE LET top == Climb(path)
                     ed  == Len(path) - Len(top)
                     d1  == EmptyAt(db, mode, w, ed)
                     lft == At(db, hd.root, <<0>>)
                     \* the only element of its half: the other half stays
                     x   == IF hd.max = -1 /\ hd.len - 1 <= VCap(hd) \div 2
                            THEN VSetRaw(db, w, own, hd, <<>>, IF path = <<>> \/ lft = <<>> THEN Zero(w) ELSE lft[1])
                            ELSE VSetRaw(d1, w, own, hd, top, Empty(mode, w, ed))
                 IN R4(x.db, [x.hd EXCEPT !.len = @ - 1], "ok", v[1])

-----------------------------------------------------------------------------
(* Packed: the tree values of an element and its bytes in each of them.     *)

\* Sequence of [i |-> host index, a |-> first byte, b |-> one past the last].
Cover(w, ew, idx) ==
    LET first == (ew * idx) \div w
        last  == (ew * idx + ew - 1) \div w
    IN [k \in 1..(last - first + 1) |->
          LET h == first + k - 1
          IN [i |-> h,
              a |-> IF k = 1 THEN ew * idx - w * h ELSE 0,
              b |-> IF h = last THEN ew * (idx + 1) - w * h ELSE w]]

HostLen(w, ew, n) == (ew * n + w - 1) \div w
PMaxHost(w, ew, max) == IF max = -1 THEN -1 ELSE HostLen(w, ew, max)

Bytes(s, a, b) == SubSeq(s, 2 * a + 1, 2 * b)
Patch(s, a, b, t) == SubSeq(s, 1, 2 * a) \o t \o SubSeq(s, 2 * b + 1, Len(s))

PCreate(db, mode, w, own, ew, n, max) ==
    LET hd0 == [v |-> [root |-> Zero(w), len |-> 0, max |-> max], len |-> 0, max |-> max, ew |-> ew]
    IN IF max # -1 /\ n > max THEN R4(db, hd0, "invalid", "")
       ELSE LET x == VCreate(db, mode, w, own, HostLen(w, ew, n), PMaxHost(w, ew, max))
            IN R4(x.db, [v |-> x.hd, len |-> n, max |-> max, ew |-> ew], x.res, "")

RECURSIVE PRead(_, _, _, _, _)
PRead(db, w, hd, cov, acc) ==
    IF cov = <<>> THEN R4(db, hd, "ok", acc)
    ELSE LET x == VGet(db, hd.v, Head(cov).i)
         IN IF x.res # "ok" THEN R4(db, hd, x.res, "")
            ELSE PRead(db, w, hd, Tail(cov), acc \o Bytes(x.out, Head(cov).a, Head(cov).b))

PGet(db, w, hd, i) ==
    IF i >= hd.len THEN R4(db, hd, "overflow", "") ELSE PRead(db, w, hd, Cover(w, hd.ew, i), "")

RECURSIVE PWrite(_, _, _, _, _, _)
PWrite(db, w, own, hd, cov, v) ==
    IF cov = <<>> THEN R4(db, hd, "ok", "")
    ELSE LET c == Head(cov)
             x == VGet(db, hd.v, c.i)
             n == c.b - c.a
             y == VSet(db, w, own, hd.v, c.i, Patch(x.out, c.a, c.b, SubSeq(v, 1, 2 * n)))
         IN PWrite(y.db, w, own, [hd EXCEPT !.v = y.hd], Tail(cov), SubSeq(v, 2 * n + 1, Len(v)))

PSet(db, w, own, hd, i, v) ==
    IF i >= hd.len THEN R4(db, hd, "overflow", "") ELSE PWrite(db, w, own, hd, Cover(w, hd.ew, i), v)

RECURSIVE PGrow(_, _, _, _, _, _)
PGrow(db, mode, w, own, hd, n) ==
    IF hd.v.len >= n THEN R4(db, hd, "ok", "")
    ELSE LET x == VPush(db, mode, w, own, hd.v, Zero(w))
         IN PGrow(x.db, mode, w, own, [hd EXCEPT !.v = x.hd], n)

RECURSIVE PCut(_, _, _, _, _, _)
PCut(db, mode, w, own, hd, n) ==
    IF hd.v.len <= n THEN R4(db, hd, "ok", "")
    ELSE LET x == VPop(db, mode, w, own, hd.v)
         IN PCut(x.db, mode, w, own, [hd EXCEPT !.v = x.hd], n)

PPush(db, mode, w, own, hd, v) ==
    IF hd.max # -1 /\ hd.len >= hd.max THEN R4(db, hd, "overflow", "")
    ELSE LET x == PGrow(db, mode, w, own, hd, HostLen(w, hd.ew, hd.len + 1))
             y == PWrite(x.db, w, own, x.hd, Cover(w, hd.ew, hd.len), v)
         IN R4(y.db, [y.hd EXCEPT !.len = @ + 1], "ok", "")

PPop(db, mode, w, own, hd) ==
    IF hd.len = 0 THEN R4(db, hd, "ok", "none")
    ELSE LET g == PGet(db, w, hd, hd.len - 1)
             x == PCut(db, mode, w, own, hd, HostLen(w, hd.ew, hd.len - 1))
             y == IF hd.len = 1 THEN x
                  ELSE LET used == hd.ew * (hd.len - 1) - w * (x.hd.v.len - 1)
                           old  == VGet(x.db, x.hd.v, x.hd.v.len - 1)
                           s    == VSet(x.db, w, own, x.hd.v, x.hd.v.len - 1,
                                        Patch(old.out, used, w, Zeros(2 * (w - used))))
                       IN R4(s.db, [x.hd EXCEPT !.v = s.hd], "ok", "")
         IN R4(y.db, [y.hd EXCEPT !.len = @ - 1], "ok", g.out)

-----------------------------------------------------------------------------
(* Any container: S is the plain or packed sequence, own its ownership.     *)

SCreate(db, mode, w, own, kind, ew, n, max) ==
    IF IsPacked(kind) THEN PCreate(db, mode, w, own, ew, n, max) ELSE VCreate(db, mode, w, own, n, max)
SApply(db, mode, w, own, kind, hd, e) ==
    LET p == IsPacked(kind) IN
    CASE e.op = "push" -> IF p THEN PPush(db, mode, w, own, hd, e.v) ELSE VPush(db, mode, w, own, hd, e.v)
      [] e.op = "pop"  -> IF p THEN PPop(db, mode, w, own, hd) ELSE VPop(db, mode, w, own, hd)
      [] e.op = "get"  -> IF p THEN PGet(db, w, hd, e.i) ELSE VGet(db, hd, e.i)
      [] e.op = "set"  -> IF p THEN PSet(db, w, own, hd, e.i, e.v) ELSE VSet(db, w, own, hd, e.i, e.v)
SRoot(kind, hd) == IF IsPacked(kind) THEN hd.v.root ELSE hd.root

\* Lists: create the inner sequence owned, hang it under a root, let go of it.
ICreate(db, mode, w, kind, ew, n, max) ==
    LET x == SCreate(db, mode, w, TRUE, kind, ew, n, max) IN
    IF ~IsList(kind) \/ x.res # "ok" THEN x
    ELSE LET s1 == SetAt(x.db, w, TRUE, Zero(w), <<0>>, SRoot(kind, x.hd))
             s2 == SetAt(s1[1], w, TRUE, s1[2], <<1>>, NumVal(w, n))
         IN R4(Unrootify(s2[1], SRoot(kind, x.hd)), [root |-> s2[2], in |-> x.hd], "ok", "")

IApply(db, mode, w, own, kind, hd, e) ==
    IF ~IsList(kind) THEN SApply(db, mode, w, own, kind, hd, e)
    ELSE LET x == SApply(db, mode, w, FALSE, kind, hd.in, e) IN
         IF e.op = "get" \/ x.res # "ok" THEN R4(x.db, hd, x.res, x.out)
         ELSE LET n == InsertNode(x.db, SRoot(kind, x.hd), NumVal(w, x.hd.len))
                  s == SetAt(n, w, own, hd.root, <<>>, ShaHash(SRoot(kind, x.hd), NumVal(w, x.hd.len)))
              IN R4(s[1], [root |-> s[2], in |-> x.hd], x.res, x.out)

IRoot(kind, hd) == IF IsList(kind) THEN hd.root ELSE SRoot(kind, hd)
ILen(kind, hd) == IF IsList(kind) THEN hd.in.len ELSE hd.len
=============================================================================
