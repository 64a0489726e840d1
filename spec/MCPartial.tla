------------------------------ MODULE MCPartial ------------------------------
(* Every short sequence of reads, updates, pushes and flushes of views on    *)
(* values of the types the harness describes, with some of the reads and     *)
(* flushes failing.                                                          *)
EXTENDS Gens, Partial, TLC, IOUtils

CONSTANTS Seeds, Ops, Mode,
          Faults,    \* operations that fail
          Few,       \* values with more parts get one operation less
          Large,     \* values with more parts are left out
          Views,
          Near       \* whether to tell what the reads before anything else may touch

Types == ndJsonDeserialize(IOEnv.TYPES)

VARIABLES ty, s, st, hist, outs, over
vars == <<ty, s, st, hist, outs, over>>
T == Types[ty].t
V0 == Gen(T, s)
\* Parts that operations are about: fields, first and last elements, and what
\* lies beyond.
RECURSIVE Parts(_, _)
Parts(t, v) ==
    {<<>>} \cup
    (IF IsLeaf(t) THEN {}
     ELSE IF t.k = "prod" THEN UNION {{<<i - 1>> \o p : p \in Parts(t.ts[i], v[i])} : i \in 1..Len(t.ts)}
     ELSE UNION {{<<i - 1>> \o p : p \in Parts(t.t, v[i])} : i \in IF v = <<>> THEN {} ELSE {1, Len(v)}}
          \cup {<<Len(v)>> \o p : p \in Parts(t.t, Gen(t.t, 0))})

Size == Cardinality({p \in Parts(T, V0) : IsLeaf(TypeAt(T, p)) \/ TypeAt(T, p).k = "list"})
Init == ty \in 1..Len(Types) /\ s \in Seeds /\ Size <= Large /\ st = View(V0, Views) /\ hist = <<>> /\ outs = <<>> /\ over = FALSE

Leaves == {p \in Parts(T, st.val) : IsLeaf(TypeAt(T, p))}
NFaults == Cardinality({i \in DOMAIN hist : Failing(hist[i])})
Torn == st.tried # {}
Lists == {p \in Parts(T, st.val) : TypeAt(T, p).k = "list"}

\* Nodes on the way to the parts p, the lengths of their lists, and the parts'
\* own.
Leading(h) == LET k == {i \in DOMAIN h : \A j \in 1..i : h[j].op \in {"get", "fetch"}} IN {h[i].p : i \in k}
\* Beyond a list: where the element would be.
Ways(t, p) ==
    LET v   == V0
        db  == StoreOf(Enc(Mode, T, v).nodes)
        ins == {i \in 0..Len(p) : InRange(T, v, SubSeq(p, 1, i))}
        q   == SubSeq(p, 1, CHOOSE i \in ins : \A j \in ins : j <= i)
        tp  == TreePath(T, v, q)
        at  == Way(db, Enc(Mode, T, v).root, tp)
    IN at \cup (IF q = p THEN {n[1] : n \in Enc(Mode, TypeAt(T, p), PartOf(v, p)).nodes}
                ELSE {n[1] : n \in Enc(Mode, TypeAt(T, q), PartOf(v, q)).nodes})

Most == IF Size > Few THEN Ops - 1 ELSE Ops
Act(e) ==
    LET x == PApply(st, T, e)
        root == IF e.op = "flush" /\ x.res = "ok" THEN Enc(Mode, T, x.st.val).root ELSE ""
    IN /\ st' = x.st
       /\ hist' = Append(hist, e)
       /\ outs' = Append(outs, [res |-> x.res, out |-> x.out, root |-> root])
       /\ over' = Over(e, x)
       /\ UNCHANGED <<ty, s>>
       /\ ((Faults = 0 /\ Len(hist') = Most /\ (Views > 1 => {hist'[i].w : i \in DOMAIN hist'} = 1..Views)) \/ over' \/ (Faults > 0 /\ e.op = "flush" /\ ~Failing(e) /\ NFaults > 0)) =>
             Emit("EDGE", ToJson([ty |-> Types[ty].name, mode |-> Mode, v |-> V0, ops |-> hist', outs |-> outs', from |-> IF Torn THEN <<st.val>> ELSE <<>>, last |-> x.st.val, over |-> over',
                                    near |-> IF Near THEN UNION {Ways(T, p) : p \in Leading(hist')} ELSE {}]))

Pending(w) == st.vs[w].sets # <<>> \/ st.vs[w].adds # <<>>
Flushed(w) == \E i \in DOMAIN hist : hist[i].op = "flush" /\ hist[i].w = w
By(w) ==
    \/ /\ Faults = 0 \/ Pending(w)
       /\ Views > 1 => Pending(w) \/ Flushed(w) \/ st.vs[w].seen # <<>>
       /\ Act([op |-> "flush", w |-> w])
    \/ /\ Len(hist) < Most - 1
       /\ \/ \E p \in Leaves : \/ (Torn => InRange(T, st.val, p)) /\ (Faults = 0 \/ Torn) /\ Act([op |-> "get", w |-> w, p |-> p])
                               \/ (Torn => InRange(T, st.val, p)) /\ Act([op |-> "set", w |-> w, p |-> p, v |-> Gen(TypeAt(T, p), 4 + Len(hist))])
                               \/ ~Torn /\ p \in DOMAIN st.vs[w].sets /\ Act([op |-> "fetch", w |-> w, p |-> p])
          \/ \E p \in Lists : (Torn => InRange(T, st.val, p)) /\ Act([op |-> "push", w |-> w, p |-> p, v |-> Gen(TypeAt(T, p).t, 2 + Len(hist))])
          \/ /\ NFaults < Faults /\ Fitting(T, st, w)
             /\ \/ Pending(w) /\ Act([op |-> "flush", w |-> w, fault |-> TRUE])
                \/ \E p \in Leaves \ DOMAIN st.vs[w].sets : InRange(T, st.val, p) /\ ~Torn /\ Act([op |-> "get", w |-> w, p |-> p, fault |-> TRUE])
\* Faults are for one view at a time.
Next == ~over /\ Len(hist) < Most /\ \E w \in 1..Views : By(w)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE PutRoot(_, _, _, _)
PutRoot(db, root, path, x) ==
    IF path = <<>> THEN x
    ELSE LET l == db[root][1]
             r == db[root][2]
         IN IF Head(path) = 0 THEN ShaHash(PutRoot(db, l, Tail(path), x), r) ELSE ShaHash(l, PutRoot(db, r, Tail(path), x))

\* A part of the value is a part of the tree, and writing one writes the other.
Positioned ==
    hist # <<>> /\ hist[Len(hist)].op = "flush" /\ ~over /\ ~Torn =>
    LET tr == Enc(Mode, T, st.val)
        db == AsStore(tr.nodes)
    IN \A p \in Leaves \cup Lists :
          InRange(T, st.val, p) =>
             LET tp == TreePath(T, st.val, p)
                 t  == TypeAt(T, p)
             IN /\ Look(db, tr.root, tp) = <<Enc(Mode, t, PartOf(st.val, p)).root>>
                /\ IsLeaf(t) => PutRoot(db, tr.root, tp, Wide(Gen(t, 5))) = Enc(Mode, T, With(st.val, p, Gen(t, 5))).root
\* What was to be written is among what may be there, and so is what was.
Mixes == Torn => /\ Mixed(T, st.val, st.val, st.tried)
                 /\ \A x \in st.tried : Mixed(T, x, st.val, st.tried)
\* Failed flushes change nothing but that: the next writes everything.
Lossless == Torn /\ Fitting(T, st, 1) => PApply(st, T, [op |-> "flush", w |-> 1]) = PApply([st EXCEPT !.tried = {}], T, [op |-> "flush", w |-> 1])
\* Nothing pending, nothing changes.
Idle == \A w \in 1..Views : ~Pending(w) /\ ~over /\ ~Torn => PApply(st, T, [op |-> "flush", w |-> w]).st.val = st.val
=============================================================================
