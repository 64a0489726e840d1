------------------------------ MODULE MCWorld ------------------------------
(* Exhaustive exploration of a small world: a container (handle 1), an      *)
(* owned raw tree (2), a third handle forked from, adopted from or inside   *)
(* either of them (3), and the store's own operations.  Values written are  *)
(* letters, zero, and the roots of the other trees, so subtrees and whole   *)
(* trees are shared and values collide with nodes.                          *)
EXTENDS World, TLC, Json

CONSTANTS Kinds,     \* of the container; "raw" for none
          Modes,
          Groups,    \* which operations: "seq", "raw", "fork", "adopt", "db"
          MaxLen,    \* elements of the container
          MaxDepth,  \* of paths written
          MaxStore,  \* nodes in the store
          MaxGarbage, \* unreachable ones among them
          Show       \* which observations to print

W == 8
EW == 12

VARIABLES cf, ws, ro, exact
vars == <<cf, ws, ro, exact>>

Ltr(i) == BytesHex([k \in 1..W |-> IF k = 1 THEN i ELSE 0])
Letters == {Zero(W), Ltr(17)}

RECURSIVE PathsOf(_)
PathsOf(d) == IF d = 0 THEN {<<>>} ELSE PathsOf(d - 1) \cup {Append(p, b) : p \in {q \in PathsOf(d - 1) : Len(q) = d - 1}, b \in {0, 1}}
Paths == PathsOf(MaxDepth)
ProbePaths == PathsOf(MaxDepth + 1)

db == ws.db
hs == ws.hs
Here(i) == i \in DOMAIN hs
Roots == {HRoot(hs[i]) : i \in DOMAIN hs}
TreeVals == Letters \cup (Roots \cap DOMAIN db)

Init == /\ cf \in [mode : Modes, kind : Kinds]
        /\ ws = NewWorld(W)
        /\ ro = << >>          \* roots put in place by the store's own operation
        /\ exact = TRUE        \* so far nothing that may leave garbage

Id(w, r, x) == Digest(<<cf, w, r, x>>)

NodesOf(d, ks) == {<<k, d[k].k>> : k \in {k \in ks : d[k].k # <<>>}}
Need(w) == NodesOf(w.db, Live(w))
Rows(d) == {<<k, d[k].k, d[k].c>> : k \in DOMAIN d}

Act(e, ro2) ==
    LET x  == WApply(ws, cf.mode, W, e)
        w2 == [db |-> x.db, hs |-> x.hs]
        \* operations that may leave garbage: writes through dangling
        \* handles, lists that grow or shrink, the store's own
        may == \/ e.op \in {"insert", "rootify", "unrootify", "populate"}
               \/ e.op \in {"rset", "push", "pop", "set", "create"} /\ Here(e.h) /\ ~hs[e.h].own
               \/ e.op \in {"push", "pop", "set", "create"} /\ (IF Here(e.h) THEN hs[e.h].kind ELSE e.kind) \in {"list", "plist"}
        ex2 == exact /\ ~may
    IN /\ Cardinality(DOMAIN w2.db) <= MaxStore
       /\ Cardinality(Garbage(w2, W)) <= MaxGarbage
       /\ ws' = w2
       /\ ro' = ro2
       /\ exact' = ex2
       /\ UNCHANGED cf
       /\ Emit("EDGE", ToJson([mode |-> cf.mode, w |-> W, s |-> Id(ws, ro, exact), t |-> Id(w2, ro2, ex2), op |-> e,
              dangling |-> "h" \in DOMAIN e /\ Here(e.h) /\ ~hs[e.h].own,
              res |-> x.res, out |-> x.out]))

\* Dangling handles are used while their tree is there.
Usable(i) ==
    \/ hs[i].own
    \/ HRoot(hs[i]) \in Letters
    \/ /\ Reach(db, {HRoot(hs[i])}) \subseteq DOMAIN db
       /\ (hs[i].kind # "raw") =>
             \A j \in 0..(HLen(hs[i]) - 1) :
                IApply(db, cf.mode, W, FALSE, hs[i].kind, hs[i].hd, [op |-> "get", i |-> j]).res = "ok"

Ew == IF IsPacked(cf.kind) THEN EW ELSE 0
EVals(i) == IF IsPacked(hs[i].kind) THEN {Zeros(2 * EW), BytesHex([k \in 1..EW |-> k])} ELSE TreeVals

SeqOps(i) ==
    /\ Here(i) /\ hs[i].kind # "raw" /\ Usable(i)
    /\ \/ \E v \in EVals(i) : HLen(hs[i]) < MaxLen /\ Act([op |-> "push", h |-> i, v |-> v], ro)
       \/ Act([op |-> "pop", h |-> i], ro)
       \/ \E j \in 0..(HLen(hs[i]) - 1), v \in EVals(i) : Act([op |-> "set", h |-> i, i |-> j, v |-> v], ro)
RawOps(i) ==
    /\ Here(i) /\ hs[i].kind = "raw" /\ Usable(i)
    /\ \E p \in Paths, v \in TreeVals : Act([op |-> "rset", h |-> i, path |-> p, v |-> v], ro)

Next ==
    \/ /\ "seq" \in Groups /\ cf.kind # "raw"
       /\ \/ /\ ~Here(1)
             /\ \E n \in {0, 2} : (cf.mode = "unit" => n = 0) /\
                   Act([op |-> "create", h |-> 1, kind |-> cf.kind, ew |-> Ew, n |-> n, max |-> -1], ro)
          \/ SeqOps(1)
          \/ SeqOps(3)
    \/ /\ "raw" \in Groups
       /\ \/ ~Here(2) /\ Act([op |-> "raw", h |-> 2, own |-> TRUE], ro)
          \/ RawOps(2)
          \/ RawOps(3)
    \/ /\ "fork" \in Groups /\ ~Here(3)
       /\ \E i \in DOMAIN hs :
             \/ Act([op |-> "fork", h |-> i, to |-> 3], ro)
             \/ hs[i].kind = "raw" /\ Usable(i) /\ \E p \in {<<0>>, <<1>>} :
                    At(db, HRoot(hs[i]), p) # <<>> /\ Act([op |-> "subtree", h |-> i, to |-> 3, path |-> p], ro)
    \/ /\ "adopt" \in Groups /\ ~Here(3)
       /\ \E i \in DOMAIN hs : hs[i].own /\ Act([op |-> "adopt", h |-> i, to |-> 3], ro)
    \/ \E i \in DOMAIN hs : Act([op |-> "drop", h |-> i], ro)
    \/ /\ "db" \in Groups
       /\ \/ \E a, b \in TreeVals : Act([op |-> "insert", l |-> a, r |-> b], ro)
          \/ \E v \in DOMAIN db : Len(ro) < 2 /\ Act([op |-> "rootify", v |-> v], Append(ro, v))
          \/ ro # <<>> /\ Act([op |-> "unrootify", v |-> ro[Len(ro)]], SubSeq(ro, 1, Len(ro) - 1))
          \/ LET n1 == <<ShaHash(Ltr(17), Zero(W)), Ltr(17), Zero(W)>>
                 n2 == <<ShaHash(n1[1], n1[1]), n1[1], n1[1]>>
             IN \E ps \in {<<n1>>, <<n2>>, <<n1, n2>>} : Act([op |-> "populate", ps |-> ps], ro)

Spec == Init /\ [][Next]_vars

\* Evaluated as an invariant: what is observable in each state.
Told ==
    Emit("STATE", ToJson([id |-> Id(ws, ro, exact),
          init |-> ws = NewWorld(W) /\ ro = << >> /\ exact,
          roots |-> {<<i, HRoot(hs[i])>> : i \in DOMAIN hs},
          need |-> IF "need" \in Show THEN Need(ws) ELSE {},
          known |-> IF "known" \in Show THEN {<<k, db[k].k>> : k \in DOMAIN db} ELSE {},
          store |-> IF exact /\ "store" \in Show THEN Rows(db) ELSE {},
          probe |-> IF 2 \in DOMAIN hs /\ "probe" \in Show
                    THEN {<<p, At(db, HRoot(hs[2]), p)>> : p \in ProbePaths}
                    ELSE {}]))
-----------------------------------------------------------------------------
Protected ==
    /\ WellFormed(db)
    /\ Live(ws) \subseteq DOMAIN db
NoGarbage ==
    exact =>
        /\ Garbage(ws, W) = {}
        /\ \A k \in DOMAIN db \ {Zero(W)} : db[k].c = Links(db, k) + Owners(ws, k)
\* Trees of owned handles an operation is not about stay as they are, but
\* for leaves that turn out to be nodes.
Keeps ==
    \A i \in DOMAIN hs : (hs[i].own /\ i \in DOMAIN ws'.hs /\ ws'.hs[i] = hs[i]) =>
        \A k \in Reach(db, {HRoot(hs[i])}) :
            /\ k \in DOMAIN ws'.db
            /\ db[k].k # <<>> => ws'.db[k].k = db[k].k
Kept == [][Keeps]_vars

\* Writing a raw tree: the position holds the value, every ancestor is the
\* hash of its children, everything beside the path is as it was.
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Frame ==
    \A p \in Paths, v \in TreeVals : Here(2) =>
        LET x == SetAt(db, W, TRUE, HRoot(hs[2]), p, v)
            \* with what the store learns on the way
            old(q) == At(SetAt(db, W, FALSE, HRoot(hs[2]), p, v)[1], HRoot(hs[2]), q)
            new(q) == At(x[1], x[2], q)
        IN /\ new(p) = <<v>>
           /\ \A q \in ProbePaths :
                /\ (~Prefix(p, q) /\ ~Prefix(q, p)) =>
                      new(q) = IF old(q) # <<>> THEN old(q)
                               \* created on the way, zero, or still absent
                               ELSE IF Prefix(SubSeq(q, 1, Len(q) - 1), p) THEN <<Zero(W)>>
                               ELSE <<>>
                /\ (Prefix(q, p) /\ q # p) =>
                      new(q) = <<ShaHash(new(Append(q, 0))[1], new(Append(q, 1))[1])>>
=============================================================================
