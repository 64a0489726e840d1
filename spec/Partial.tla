------------------------------ MODULE Partial ------------------------------
(* Partial views of an encoded value.  A view holds updates of parts, and   *)
(* elements pushed to lists, until they are flushed into the tree.          *)
(* Parts are named by paths of field and element numbers, from 0.           *)
EXTENDS Ssz

IsLeaf(t) == t.k \in {"u", "hash"}
StepT(t, i) == IF t.k = "prod" THEN t.ts[i + 1] ELSE t.t

RECURSIVE TypeAt(_, _)
TypeAt(t, p) == IF p = <<>> THEN t ELSE TypeAt(StepT(t, Head(p)), Tail(p))

\* Whether a value has the part.
RECURSIVE InRange(_, _, _)
InRange(t, v, p) ==
    IF p = <<>> THEN TRUE ELSE Head(p) < Len(v) /\ InRange(StepT(t, Head(p)), v[Head(p) + 1], Tail(p))

RECURSIVE PartOf(_, _)
PartOf(v, p) == IF p = <<>> THEN v ELSE PartOf(v[Head(p) + 1], Tail(p))

RECURSIVE With(_, _, _)
With(v, p, x) == IF p = <<>> THEN x ELSE [v EXCEPT ![Head(p) + 1] = With(@, Tail(p), x)]

\* Where the part is in the tree.
RECURSIVE TreePath(_, _, _)
TreePath(t, v, p) ==
    IF p = <<>> THEN <<>>
    ELSE (IF t.k = "prod" THEN PathOf(Head(p), CeilLog2(Len(v))) ELSE <<0>> \o PathOf(Head(p), CeilLog2(Len(v))))
         \o TreePath(StepT(t, Head(p)), v[Head(p) + 1], Tail(p))

-----------------------------------------------------------------------------
\* A part of whatever tree there is, some of its nodes in db: what can be told
\* of it.  "free": a tree value which encodes none exactly.
RECURSIVE ReadPart(_, _, _, _)
ReadPart(db, t, root, p) ==
    LET R(res, out) == [res |-> res, out |-> out]
        into(path) == LET x == Look(db, root, path)
                      IN IF x = <<>> THEN R("corrupted", <<>>) ELSE ReadPart(db, StepT(t, Head(p)), x[1], Tail(p))
    IN IF p = <<>>
       THEN LET x == Dec(db, t, root)
            IN IF x = <<>> THEN R("corrupted", <<>>) ELSE IF Wide(x[1]) # root THEN R("free", <<>>) ELSE R("ok", x)
       ELSE IF t.k = "prod" THEN into(PathOf(Head(p), CeilLog2(Len(t.ts))))
       ELSE LET m == Look(db, root, <<1>>)
                n == IF m = <<>> THEN <<>> ELSE Number(m[1])
            IN IF n = <<>> THEN R("corrupted", <<>>)
               ELSE IF Head(p) >= n[1] THEN R("overflow", <<>>)
               ELSE into(<<0>> \o PathOf(Head(p), CeilLog2(n[1])))

-----------------------------------------------------------------------------
\* The value last known to be in the tree, what flushes tried to write that
\* the backend let down since, and views: pending updates, pending pushes, and
\* what was read.
Nothing == [sets |-> <<>>, adds |-> <<>>, seen |-> <<>>]
View(v, n) == [val |-> v, tried |-> {}, vs |-> [w \in 1..n |-> Nothing]]
PutF(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DelF(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

RECURSIVE SetAll(_, _, _)
SetAll(v, f, ks) ==
    IF ks = {} THEN v
    ELSE LET k == CHOOSE k \in ks : TRUE IN SetAll(With(v, k, f[k]), f, ks \ {k})
RECURSIVE AddAll(_, _, _)
AddAll(v, f, ks) ==
    IF ks = {} THEN v
    ELSE \* inner lists before those which hold them
         LET k == CHOOSE k \in ks : \A j \in ks : Len(j) <= Len(k)
         IN AddAll(With(v, k, PartOf(v, k) \o f[k]), f, ks \ {k})

\* Everything pending is about parts there are.
Fitting(t, st, w) == \A p \in DOMAIN st.vs[w].sets \cup DOMAIN st.vs[w].adds : InRange(t, st.val, p)
\* What a flush is to make of the value.
Target(st, w) == LET v == st.vs[w] IN AddAll(SetAll(st.val, v.sets, DOMAIN v.sets), v.adds, DOMAIN v.adds)

\* Some of the updates made: what the tree may hold after flushes failed.
RECURSIVE Mixed(_, _, _, _)
Mixed(t, x, old, new) ==
    CASE t.k = "prod" -> \A i \in 1..Len(t.ts) : Mixed(t.ts[i], x[i], old[i], {n[i] : n \in new})
      [] t.k = "list" ->
            /\ Len(x) \in {Len(old)} \cup {Len(n) : n \in new}
            /\ \A i \in 1..Len(x) :
                  IF i <= Len(old) THEN Mixed(t.t, x[i], old[i], {n[i] : n \in new})
                  ELSE \E n \in new : Len(n) >= i /\ Same(x[i], n[i])
      [] OTHER -> \E n \in new \cup {old} : Same(x, n)

\* What a view makes of the tree at root, as far as it is there, nothing being
\* flushed: pending updates, what was read, parts nothing is known about.
Looking == [sets |-> <<>>, adds |-> <<>>, seen |-> <<>>, free |-> {}]
LooksAt(db, t, root, v, e) ==
    LET L(x, res, out) == [v |-> x, res |-> res, out |-> out]
        r == ReadPart(db, t, root, e.p)
    IN CASE e.op = "get" ->
              IF e.p \in v.free THEN L(v, "free", <<>>)
              ELSE IF e.p \in DOMAIN v.sets THEN L(v, "ok", <<v.sets[e.p]>>)
              ELSE IF e.p \in DOMAIN v.seen THEN L(v, "ok", <<v.seen[e.p]>>)
              ELSE L(IF r.res = "ok" THEN [v EXCEPT !.seen = PutF(@, e.p, r.out[1])] ELSE v, r.res, r.out)
         [] e.op = "fetch" ->
              L(CASE r.res = "ok"   -> [v EXCEPT !.sets = DelF(@, e.p), !.seen = PutF(@, e.p, r.out[1])]
                  [] r.res = "free" -> [v EXCEPT !.free = @ \cup {e.p}]
                  [] OTHER -> v, r.res, r.out)
         [] e.op = "set" -> L([v EXCEPT !.sets = PutF(@, e.p, e.v), !.free = @ \ {e.p}], "ok", <<>>)
         [] e.op = "push" -> L([v EXCEPT !.adds = PutF(@, e.p, IF e.p \in DOMAIN @ THEN Append(@[e.p], e.v) ELSE <<e.v>>)], "ok", <<>>)
         [] e.op = "view" -> L(Looking, "ok", <<>>)
         [] e.op = "supply" -> L(v, "ok", <<>>)     \* another node gets there

\* A flush of a value of which only some nodes are there.  It is judged where
\* it finds its way; then it does what it does on the whole tree.
RECURSIVE Way(_, _, _)
Way(db, r, path) ==
    IF r \notin DOMAIN db THEN {} ELSE {r} \cup IF path = <<>> THEN {} ELSE Way(db, db[r][Head(path) + 1], Tail(path))
StoreOf(ns) == AsStore(ns) @@ ("" :> <<"", "">>)
FlushFits(t, val, v) == \A p \in DOMAIN v.sets \cup DOMAIN v.adds : InRange(t, val, p)
FlushNeeds(mode, t, val, v) ==
    LET tr == Enc(mode, t, val)
        db == StoreOf(tr.nodes)
        to(path) == Way(db, tr.root, path)
    IN UNION {to(TreePath(t, val, p)) : p \in DOMAIN v.sets} \cup
       UNION {LET n == Len(PartOf(val, p))
                  d == CeilLog2(n)
                  at == TreePath(t, val, p)
              IN to(at) \cup UNION {to(at \o <<0>> \o PathOf(k, d)) : k \in {j \in n..(n + Len(v.adds[p]) - 1) : j < Pow2(d)}}
              : p \in DOMAIN v.adds}
FlushedTo(val, v) == AddAll(SetAll(val, v.sets, DOMAIN v.sets), v.adds, DOMAIN v.adds)
FlushAdds(mode, t, val, v) ==
    LET new == FlushedTo(val, v)
        tr  == Enc(mode, t, new)
        db  == StoreOf(tr.nodes)
        to(p) == Way(db, tr.root, TreePath(t, new, p))
        ks  == UNION {to(p) : p \in DOMAIN v.sets} \cup
               UNION {UNION {to(Append(p, Len(PartOf(val, p)) + k - 1)) \cup {n[1] : n \in Enc(mode, TypeAt(t, p).t, v.adds[p][k]).nodes} : k \in 1..Len(v.adds[p])} : p \in DOMAIN v.adds}
    IN [k \in ks |-> db[k]]

PR(st, res, out) == [st |-> st, res |-> res, out |-> out]

Failing(e) == "fault" \in DOMAIN e /\ e.fault

PApply(st, t, e) ==
    LET w == e.w
        v == st.vs[w]
        With1(x) == [st EXCEPT !.vs[w] = x]
    IN
    CASE Failing(e) ->              \* nothing pending is lost
            PR(IF e.op = "flush" THEN [st EXCEPT !.tried = @ \cup {Target(st, w)}] ELSE st, "backend Fault", <<>>)
      [] e.op = "get" ->            \* what is pending, or was read, or is in the tree
            IF e.p \in DOMAIN v.sets THEN PR(st, "ok", <<v.sets[e.p]>>)
            ELSE IF e.p \in DOMAIN v.seen THEN PR(st, "ok", <<v.seen[e.p]>>)
            ELSE IF InRange(t, st.val, e.p) THEN PR(With1([v EXCEPT !.seen = PutF(@, e.p, PartOf(st.val, e.p))]), "ok", <<PartOf(st.val, e.p)>>)
            ELSE PR(st, "overflow", <<>>)
      [] e.op = "fetch" ->          \* reads the tree and forgets the update
            IF InRange(t, st.val, e.p) THEN PR(With1([v EXCEPT !.sets = DelF(@, e.p), !.seen = PutF(@, e.p, PartOf(st.val, e.p))]), "ok", <<PartOf(st.val, e.p)>>)
            ELSE PR(st, "overflow", <<>>)
      [] e.op = "set" -> PR(With1([v EXCEPT !.sets = PutF(@, e.p, e.v)]), "ok", <<>>)
      [] e.op = "push" ->
            PR(With1([v EXCEPT !.adds = PutF(@, e.p, IF e.p \in DOMAIN @ THEN Append(@[e.p], e.v) ELSE <<e.v>>)]), "ok", <<>>)
      [] e.op = "view" -> PR(With1(Nothing), "ok", <<>>)     \* a new view
      [] e.op = "flush" ->
            IF Fitting(t, st, w) THEN PR([st EXCEPT !.val = Target(st, w), !.tried = {}, !.vs[w] = Nothing], "ok", <<>>)
            ELSE PR(st, "overflow", <<>>)

\* Flushing in vain leaves the view and the tree as the order of the fields
\* has it; nothing is said about them.
Over(e, x) == e.op = "flush" /\ x.res = "overflow"
=============================================================================
