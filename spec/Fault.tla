-------------------------------- MODULE Fault --------------------------------
(* The operations of Impl and World call by call.  A backend call either    *)
(* happens or fails; when one fails the operation ends there, with the      *)
(* backend's error, and what the calls before it did to the store stays.    *)
(*                                                                          *)
(* A run [db, ps, hd] has the store and the handle so far, and in ps the    *)
(* store and handle after each write call: what a failure of the next call  *)
(* leaves behind.  Handles change when an operation is complete.            *)
EXTENDS Proving

Run0(db, hd) == [db |-> db, hd |-> hd, ps |-> <<[db |-> db, hd |-> hd]>>]
Did(x, db) == [x EXCEPT !.db = db, !.ps = Append(@, [db |-> db, hd |-> x.hd])]
\* The handle from here on.
Settle(x, hd) == [x EXCEPT !.hd = hd, !.ps[Len(x.ps)].hd = hd]

InsertC(x, l, r) == Did(x, InsertNode(x.db, l, r))
RootC(x, k) == Did(x, Rootify(x.db, k))
UnrootC(x, k) == Did(x, Unrootify(x.db, k))

\* Inserts from the bottom up: <<run, value on top>>.
RECURSIVE BuildC(_, _, _, _, _)
BuildC(x, w, root, path, v) ==
    IF path = <<>> THEN <<x, v>>
    ELSE LET k  == Kids(x.db, root)
             lr == IF k = <<>> THEN <<Zero(w), Zero(w)>> ELSE k
             nx == IF k = <<>> THEN root ELSE k[1 + Head(path)]
             b  == BuildC(x, w, nx, Tail(path), v)
             l  == IF Head(path) = 0 THEN b[2] ELSE lr[1]
             r  == IF Head(path) = 1 THEN b[2] ELSE lr[2]
         IN <<InsertC(b[1], l, r), ShaHash(l, r)>>

\* Raw::set: <<run, new root>>.  The new root is owned before the old is not.
SetC(x, w, own, root, path, v) ==
    LET b == BuildC(x, w, root, path, v)
    IN IF own THEN <<UnrootC(RootC(b[1], b[2]), root), b[2]>> ELSE b

RECURSIVE EmptyC(_, _, _, _)
EmptyC(x, mode, w, d) ==
    IF mode = "unit" \/ d = 0 THEN x
    ELSE InsertC(EmptyC(x, mode, w, d - 1), ZeroTree[w][d], ZeroTree[w][d])

-----------------------------------------------------------------------------
(* Vectors.  Each gives the run with the new handle <<run, vector handle>>; *)
(* the caller settles it.                                                   *)
VSetC(x, w, own, hd, path, v) ==
    LET s == SetC(x, w, own, hd.root, path, v) IN <<s[1], [hd EXCEPT !.root = s[2]]>>

VExtendC(x, mode, w, own, hd, v) ==
    LET d1 == EmptyC(x, mode, w, VDepth(hd))
        e  == Empty(mode, w, VDepth(hd))
        s1 == SetC(d1, w, own, Zero(w), <<0>>, hd.root)
        s2 == SetC(s1[1], w, own, s1[2], <<1>>, e)
        s3 == SetC(s2[1], w, own, s2[2], PathTo(hd.len, VDepth(hd) + 1), v)
        s4 == SetC(s3[1], w, own, hd.root, <<>>, Zero(w))
    IN <<s4[1], [hd EXCEPT !.root = s3[2], !.len = @ + 1]>>

VPushC(x, mode, w, own, hd, v) ==
    IF hd.len = VCap(hd) THEN VExtendC(x, mode, w, own, hd, v)
    ELSE VSetC(x, w, own, [hd EXCEPT !.len = @ + 1], PathTo(hd.len, VDepth(hd)), v)

VPopC(x, mode, w, own, hd) ==
    IF hd.len = 0 THEN <<x, hd>>
    ELSE LET path == PathTo(hd.len - 1, VDepth(hd))
             top == Climb(path)
             ed  == Len(path) - Len(top)
             lft == At(x.db, hd.root, <<0>>)
             y   == IF hd.max = -1 /\ hd.len - 1 <= VCap(hd) \div 2
                    THEN VSetC(x, w, own, hd, <<>>, IF path = <<>> \/ lft = <<>> THEN Zero(w) ELSE lft[1])
                    ELSE VSetC(EmptyC(x, mode, w, ed), w, own, hd, top, Empty(mode, w, ed))
         IN <<y[1], [y[2] EXCEPT !.len = @ - 1]>>

VCreateC(x, mode, w, own, n, max) ==
    LET d == CeilLog2(IF max # -1 THEN max ELSE n)
    IN VSetC(EmptyC(x, mode, w, d), w, own, [root |-> Zero(w), len |-> n, max |-> max], <<>>, Empty(mode, w, d))

-----------------------------------------------------------------------------
(* Packed vectors work on a copy of the vector below, which holds the tree  *)
(* as well, and take its place when done.  q is <<run, vector handle>>.     *)
RECURSIVE PWriteC(_, _, _, _, _)
PWriteC(q, w, own, cov, v) ==
    IF cov = <<>> THEN q
    ELSE LET c == Head(cov)
             n == c.b - c.a
             old == VGet(q[1].db, q[2], c.i)
             y == VSetC(q[1], w, own, q[2], PathTo(c.i, VDepth(q[2])), Patch(old.out, c.a, c.b, SubSeq(v, 1, 2 * n)))
         IN PWriteC(y, w, own, Tail(cov), SubSeq(v, 2 * n + 1, Len(v)))

RECURSIVE PGrowC(_, _, _, _, _)
PGrowC(q, mode, w, own, n) ==
    IF q[2].len >= n THEN q ELSE PGrowC(VPushC(q[1], mode, w, own, q[2], Zero(w)), mode, w, own, n)

RECURSIVE PCutC(_, _, _, _, _)
PCutC(q, mode, w, own, n) ==
    IF q[2].len <= n THEN q ELSE PCutC(VPopC(q[1], mode, w, own, q[2]), mode, w, own, n)

CopyC(x, own) == <<IF own THEN RootC(x, x.hd.v.root) ELSE x, x.hd.v>>
TakeC(q, own, n) ==
    LET x == IF own THEN UnrootC(q[1], q[1].hd.v.root) ELSE q[1]
    IN Settle(x, [x.hd EXCEPT !.v = q[2], !.len = n])

PSetC(x, w, own, i, v) == TakeC(PWriteC(CopyC(x, own), w, own, Cover(w, x.hd.ew, i), v), own, x.hd.len)

PPushC(x, mode, w, own, v) ==
    LET hd == x.hd
        g  == PGrowC(CopyC(x, own), mode, w, own, HostLen(w, hd.ew, hd.len + 1))
    IN TakeC(PWriteC(g, w, own, Cover(w, hd.ew, hd.len), v), own, hd.len + 1)

PPopC(x, mode, w, own) ==
    LET hd == x.hd IN
    IF hd.len = 0 THEN x
    ELSE LET y == PCutC(CopyC(x, own), mode, w, own, HostLen(w, hd.ew, hd.len - 1))
             z == IF hd.len = 1 THEN y
                  ELSE LET used == hd.ew * (hd.len - 1) - w * (y[2].len - 1)
                           old  == VGet(y[1].db, y[2], y[2].len - 1)
                       IN VSetC(y[1], w, own, y[2], PathTo(y[2].len - 1, VDepth(y[2])),
                                Patch(old.out, used, w, Zeros(2 * (w - used))))
         IN TakeC(z, own, hd.len - 1)

PCreateC(x, mode, w, own, ew, n, max) ==
    LET y == VCreateC(x, mode, w, own, HostLen(w, ew, n), PMaxHost(w, ew, max))
    IN Settle(y[1], [v |-> y[2], len |-> n, max |-> max, ew |-> ew])

-----------------------------------------------------------------------------
(* Any container.  Reads and refused operations make no write call.         *)
SApplyC(x, mode, w, own, kind, e) ==
    LET p == IsPacked(kind)
        done(q) == Settle(q[1], q[2])
    IN
    CASE e.op = "push" -> IF p THEN PPushC(x, mode, w, own, e.v) ELSE done(VPushC(x, mode, w, own, x.hd, e.v))
      [] e.op = "pop"  -> IF p THEN PPopC(x, mode, w, own) ELSE done(VPopC(x, mode, w, own, x.hd))
      [] e.op = "get"  -> x
      [] e.op = "set"  ->
            IF p THEN PSetC(x, w, own, e.i, e.v)
            ELSE done(VSetC(x, w, own, x.hd, PathTo(e.i, VDepth(x.hd)), e.v))

\* An operation on the sequence inside a list, seen from the list.
Inside(y, hd) == [y EXCEPT !.hd = hd, !.ps = [i \in DOMAIN y.ps |-> [y.ps[i] EXCEPT !.hd = hd]]]

IApplyC(x, mode, w, own, kind, e, ok) ==
    IF ~ok THEN x
    ELSE IF ~IsList(kind) THEN SApplyC(x, mode, w, own, kind, e)
    ELSE LET hd == x.hd
             y  == SApplyC(Run0(x.db, hd.in), mode, w, FALSE, kind, e)
             in == y.hd
             z  == Inside(y, hd)
         IN IF e.op = "get" THEN z
            ELSE LET n == InsertC(z, SRoot(kind, in), NumVal(w, in.len))
                     s == SetC(n, w, own, hd.root, <<>>, ShaHash(SRoot(kind, in), NumVal(w, in.len)))
                 IN Settle(s[1], [root |-> s[2], in |-> in])

ICreateC(x, mode, w, kind, ew, n, max) ==
    LET y == IF IsPacked(kind) THEN PCreateC(x, mode, w, TRUE, ew, n, max)
             ELSE LET q == VCreateC(x, mode, w, TRUE, n, max) IN Settle(q[1], q[2])
    IN IF ~IsList(kind) THEN y
       ELSE LET s1 == SetC(y, w, TRUE, Zero(w), <<0>>, SRoot(kind, y.hd))
                s2 == SetC(s1[1], w, TRUE, s1[2], <<1>>, NumVal(w, n))
            IN Settle(UnrootC(s2[1], SRoot(kind, y.hd)), [root |-> s2[2], in |-> y.hd])

-----------------------------------------------------------------------------
(* Operations of a world: the worlds a failure can leave, one for each      *)
(* number of writes that happened; the last is that of no failure.          *)
NoHandle == [none |-> TRUE]

Worlds(ws, mode, w, e) ==
    LET db == ws.db
        h  == ws.hs[e.h]
        ok == WApply(ws, mode, w, e).res = "ok"
        As(x) == [i \in DOMAIN x.ps |-> [db |-> x.ps[i].db, hs |-> Put(ws.hs, e.h, [h EXCEPT !.hd = x.ps[i].hd])]]
    IN
    CASE e.op \in {"push", "pop", "set", "get"} -> As(IApplyC(Run0(db, h.hd), mode, w, h.own, h.kind, e, ok))
      [] e.op = "rset" ->
            LET s == SetC(Run0(db, h.hd), w, h.own, h.hd.root, e.path, e.v)
            IN As(Settle(s[1], [h.hd EXCEPT !.root = s[2]]))
      [] e.op = "create" ->       \* there is no handle until the end
            IF ~ok THEN <<ws>>
            ELSE LET x == ICreateC(Run0(db, NoHandle), mode, w, e.kind, e.ew, e.n, e.max)
                 IN [i \in DOMAIN x.ps |-> IF i < Len(x.ps) THEN [db |-> x.ps[i].db, hs |-> ws.hs]
                                           ELSE [db |-> x.db, hs |-> WApply(ws, mode, w, e).hs]]
      [] e.op = "drop" ->         \* the handle is gone whatever happens
            LET gone == Del(ws.hs, e.h)
            IN <<[db |-> db, hs |-> gone]>> \o (IF h.own THEN <<[db |-> Unrootify(db, HRoot(h)), hs |-> gone]>> ELSE <<>>)
      [] OTHER -> LET x == WApply(ws, mode, w, e) IN <<[db |-> x.db, hs |-> x.hs]>>    \* nothing is written

-----------------------------------------------------------------------------
(* What must be so, whatever failed.                                        *)

\* The elements of a container: <<value>> or <<>> where nothing can be read.
Elems(ws, mode, w, h) ==
    [i \in 1..HLen(h) |-> LET x == IApply(ws.db, mode, w, FALSE, h.kind, h.hd, [op |-> "get", i |-> i - 1])
                          IN IF x.res = "ok" THEN <<x.out>> ELSE <<>>]

\* Owned trees are complete, and held by as many counts as they need.
Enough(ws) ==
    LET live == Live(ws) IN
    \A k \in live :
        /\ k \in DOMAIN ws.db
        /\ ws.db[k].c = Pinned \/ ws.db[k].c >= Owners(ws, k) + Cardinality({j \in live : ws.db[j].k # <<>> /\ ws.db[j].k[1] = k})
                                                              + Cardinality({j \in live : ws.db[j].k # <<>> /\ ws.db[j].k[2] = k})
=============================================================================
