------------------------------ MODULE MCParts ------------------------------
(* Views of values whose tree is only partly in the store, or is another    *)
(* one somewhere: every short sequence of reads, updates, flushes which     *)
(* find their way, and nodes getting there after all; then all is read.     *)
EXTENDS Gens, Partial, TLC, IOUtils

CONSTANTS Seeds, Ops, Mode,
          Few,       \* values with more parts are only written
          Large,     \* values with more parts are left out
          Lost,      \* nodes lost at a time, at most
          Put        \* whether trees are damaged, too

Types == ndJsonDeserialize(IOEnv.TYPES)

VARIABLES ty, s, dmg, db, root, val, vw, hist, outs
vars == <<ty, s, dmg, db, root, val, vw, hist, outs>>
T == Types[ty].t
V0 == Gen(T, s)
Ours == Enc(Mode, T, V0)
Keys(ns) == {n[1] : n \in ns}

\* Leaves: fields, first and last elements, and what lies beyond.
RECURSIVE Parts(_, _)
Parts(t, v) ==
    IF IsLeaf(t) THEN {<<>>}
    ELSE IF t.k = "prod" THEN UNION {{<<i - 1>> \o p : p \in Parts(t.ts[i], v[i])} : i \in 1..Len(t.ts)}
    ELSE UNION {{<<i - 1>> \o p : p \in Parts(t.t, v[i])} : i \in IF v = <<>> THEN {} ELSE {1, Len(v)}}
         \cup {<<Len(v)>> \o p : p \in Parts(t.t, Gen(t.t, 0))}
Leaves == Parts(T, V0)
RECURSIVE Lists(_, _)
Lists(t, v) ==
    IF IsLeaf(t) THEN {}
    ELSE IF t.k = "prod" THEN UNION {{<<i - 1>> \o p : p \in Lists(t.ts[i], v[i])} : i \in 1..Len(t.ts)}
    ELSE {<<>>} \cup UNION {{<<i - 1>> \o p : p \in Lists(t.t, v[i])} : i \in IF v = <<>> THEN {} ELSE {1, Len(v)}}

Init == /\ ty \in 1..Len(Types) /\ s \in Seeds /\ Cardinality(Leaves) <= Large
        /\ dmg = <<"none">> /\ db = <<>> /\ root = "" /\ val = V0 /\ vw = Looking /\ hist = <<>> /\ outs = <<>>

Now == Enc(Mode, T, val)
To(p) == Way(StoreOf(Now.nodes), Now.root, TreePath(T, val, p))

Lose ==
    /\ dmg = <<"none">>
    /\ LET all == Keys(Ours.nodes) IN
       \E keep \in {all} \cup {all \ {a} : a \in all} \cup {To(p) : p \in {q \in Leaves : InRange(T, V0, q)}}
                   \cup (IF Lost > 1 THEN {all \ {a, b} : a, b \in all} ELSE {}) :
          /\ dmg' = <<"some", {n \in Ours.nodes : n[1] \in keep}>>
          /\ db' = StoreOf(dmg'[2])
    /\ root' = Ours.root
    /\ UNCHANGED <<ty, s, val, vw, hist, outs>>

RECURSIVE PutAt(_, _, _, _)
PutAt(st, r, path, x) ==
    IF path = <<>> THEN <<x, {}>>
    ELSE LET a == PutAt(st, st[r][1 + Head(path)], Tail(path), x)
             n == IF Head(path) = 0 THEN <<a[1], st[r][2]>> ELSE <<st[r][1], a[1]>>
             k == ShaHash(n[1], n[2])
         IN <<k, a[2] \cup {<<k, n[1], n[2]>>}>>
RECURSIVE Positions(_, _, _)
Positions(st, r, path) ==
    {path} \cup IF r \in DOMAIN st THEN Positions(st, st[r][1], Append(path, 0)) \cup Positions(st, st[r][2], Append(path, 1)) ELSE {}
\* Numbers of all sizes, tree values that are none, parts of the tree itself.
Big(k, b) == BytesHex([i \in 1..W |-> IF i = k THEN b ELSE 0])
Stuff == {Z, NumVal(W, 1), NumVal(W, 2), NumVal(W, 5), NumVal(W, 300), Big(4, 1), Big(5, 1), Big(8, 4), Big(8, 64), Big(8, 129), Big(9, 1), BytesHex([i \in 1..W |-> 255]),
          BytesHex([i \in 1..W |-> (i * 5) % 256]), Ours.root}
Damage ==
    /\ Put /\ dmg = <<"none">>
    /\ LET st == StoreOf(Ours.nodes) IN
       \E p \in Positions(st, Ours.root, <<>>), x \in Stuff :
          LET q == PutAt(st, Ours.root, p, x) IN
          /\ dmg' = <<"put", Ours.nodes \cup q[2]>>
          /\ root' = q[1]
          /\ db' = StoreOf(dmg'[2])
    /\ UNCHANGED <<ty, s, val, vw, hist, outs>>

Missing == {n \in Ours.nodes : n[1] \notin DOMAIN db}
Act(e) ==
    LET x == LooksAt(db, T, root, vw, e)
    IN /\ vw' = x.v
       /\ db' = IF e.op = "supply" THEN db @@ (e.n[1] :> <<e.n[2], e.n[3]>>) ELSE db
       /\ hist' = Append(hist, e)
       /\ outs' = Append(outs, [res |-> x.res, out |-> x.out, root |-> ""])
       /\ UNCHANGED <<ty, s, dmg, root, val>>
Step ==
    /\ dmg[1] = "some" /\ Missing # {} /\ Len(hist) < Ops
    /\ \/ \E p \in Leaves : \/ Cardinality(Leaves) <= Few /\ Act([op |-> "get", p |-> p])
                            \/ Cardinality(Leaves) <= Few /\ Act([op |-> "fetch", p |-> p])
                            \/ Act([op |-> "set", p |-> p, v |-> Gen(TypeAt(T, p), 4 + Len(hist))])
       \/ \E p \in Lists(T, V0) : Act([op |-> "push", p |-> p, v |-> Gen(TypeAt(T, p).t, 12 + Len(hist))])
       \/ \E n \in Missing : Act([op |-> "supply", p |-> <<>>, n |-> n])
Flush ==
    /\ dmg[1] = "some" /\ hist # <<>> /\ hist[Len(hist)].op # "flush" /\ Len(hist) < Ops
    /\ DOMAIN vw.sets \cup DOMAIN vw.adds # {} /\ FlushFits(T, val, vw) /\ FlushNeeds(Mode, T, val, vw) \subseteq DOMAIN db
    /\ val' = FlushedTo(val, vw)
    /\ db' = db @@ FlushAdds(Mode, T, val, vw)
    /\ root' = Enc(Mode, T, val').root
    /\ vw' = Looking
    /\ hist' = Append(hist, [op |-> "flush", p |-> <<>>])
    /\ outs' = Append(outs, [res |-> "ok", out |-> <<>>, root |-> root'])
    /\ UNCHANGED <<ty, s, dmg>>
Next == Lose \/ Damage \/ Step \/ Flush
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
There == dmg[1] # "none"
Reading(p) == ReadPart(db, T, root, p)
\* What is told is what the whole tree holds.
Honest == dmg[1] = "some" => \A p \in Leaves :
    LET r == Reading(p) IN IF InRange(T, val, p) THEN r.res = "corrupted" \/ (r.res = "ok" /\ r.out = <<PartOf(val, p)>>)
                           ELSE r.res \in {"overflow", "corrupted"}
\* The nodes on the way suffice.
Suffices == dmg[1] = "some" => \A p \in Leaves : InRange(T, val, p) /\ To(p) \subseteq DOMAIN db => Reading(p).res = "ok"
\* A tree that decodes on the whole has the parts of the value.
Decodes == There => LET x == Dec(db, T, root) IN x # <<>> =>
    \A p \in Leaves : LET r == Reading(p) IN
        IF InRange(T, x[1], p) THEN r.res = "free" \/ (r.res = "ok" /\ Same(r.out, <<PartOf(x[1], p)>>)) ELSE r.res = "overflow"
\* Reads which failed left everything pending as it was.
Kept == \A p \in Leaves : LET f == {i \in DOMAIN hist : hist[i].p = p /\ (hist[i].op = "set" \/ (hist[i].op = "fetch" /\ outs[i].res = "ok"))}
                          IN f # {} /\ (\A i \in DOMAIN hist : hist[i].op # "flush") => LET i == CHOOSE i \in f : \A j \in f : j <= i
                                       IN hist[i].op = "set" => LooksAt(db, T, root, vw, [op |-> "get", p |-> p]).out = <<hist[i].v>>

\* What a flush adds are nodes of the new tree, and make the parts written
\* readable.
Wrote == hist # <<>> /\ hist[Len(hist)].op = "flush" =>
    /\ root = Now.root
    /\ \A i \in DOMAIN hist : hist[i].op = "set" => Reading(hist[i].p).res = "ok"
Told == There => Emit("EDGE", ToJson([ty |-> Types[ty].name, mode |-> Mode, nodes |-> dmg[2], root |-> IF dmg[1] = "some" THEN Ours.root ELSE root, ops |-> hist, outs |-> outs,
    reads |-> {LET r == LooksAt(db, T, root, vw, [op |-> "get", p |-> p]) IN [p |-> p, res |-> r.res, out |-> r.out] : p \in Leaves}]))
=============================================================================
