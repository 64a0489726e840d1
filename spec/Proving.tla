------------------------------ MODULE Proving ------------------------------
(* Recording what operations read of a store, and running them again from   *)
(* what was recorded.                                                       *)
EXTENDS World

\* Nodes with known children from a root along a path.
RECURSIVE PathNodes(_, _, _)
PathNodes(db, root, path) ==
    IF path = <<>> \/ Kids(db, root) = <<>> THEN {}
    ELSE {root} \cup PathNodes(db, Kids(db, root)[1 + Head(path)], Tail(path))

VPath(db, hd, i) == IF i < VCap(hd) THEN PathNodes(db, hd.root, PathTo(i, VDepth(hd))) ELSE {}
PPaths(db, w, hd, i) == UNION {VPath(db, hd.v, Cover(w, hd.ew, i)[k].i) : k \in DOMAIN Cover(w, hd.ew, i)}

\* The nodes an operation on a sequence reads: those above the elements it
\* is about.
SReads(db, w, kind, hd, e) ==
    LET p == IsPacked(kind)
        at(i) == IF p THEN PPaths(db, w, hd, i) ELSE VPath(db, hd, i)
    IN CASE e.op = "push" -> IF ~p /\ hd.len = VCap(hd) THEN {}
                             ELSE IF p /\ hd.max # -1 /\ hd.len >= hd.max THEN {}
                             ELSE at(hd.len)
         [] e.op = "pop"  -> IF hd.len = 0 THEN {}
                             ELSE at(hd.len - 1) \cup (IF p /\ hd.len > 1 THEN at(hd.len - 2) ELSE {})
         [] e.op \in {"get", "set"} -> IF e.i >= hd.len THEN {} ELSE at(e.i)

\* The nodes an operation reads of the trees there are before it.
Reads(ws, w, e) ==
    LET db == ws.db
        h  == IF "h" \in DOMAIN e /\ e.h \in DOMAIN ws.hs THEN ws.hs[e.h] ELSE [own |-> FALSE]
        root(r) == IF Kids(db, r) = <<>> THEN {} ELSE {r}
    IN CASE e.op \in {"rset", "rget", "subtree"} -> PathNodes(db, HRoot(h), e.path)
         [] e.op \in {"push", "pop", "get", "set"} ->
               IF IsList(h.kind) THEN SReads(db, w, h.kind, h.hd.in, e) \cup root(h.hd.root)
               ELSE SReads(db, w, h.kind, h.hd, e)
         [] e.op = "recon" -> IF IsList(h.kind) THEN root(h.hd.root) ELSE {}
         [] OTHER -> {}

ReadOnly(e) == e.op \in {"rget", "subtree", "get", "recon", "fork", "forget"}

\* What an operation brings into the store; a node that was there already is
\* not its own, for what holds it may be no part of the proof.
NodesIn(db) == {k \in DOMAIN db : db[k].k # <<>>}
Inserted(ws, ws2) == NodesIn(ws2.db) \ NodesIn(ws.db)

\* A recording: the world, the recorded nodes, the inserted ones.
RStep(rec, ws2, w, e) ==
    LET rd == {k \in Reads(rec.ws, w, e) : k \notin rec.ins}
    IN [ws |-> ws2,
        ps |-> rec.ps \cup {<<k, rec.ws.db[k].k[1], rec.ws.db[k].k[2]>> : k \in rd},
        ins |-> rec.ins \cup Inserted(rec.ws, ws2)]

\* A store holding a proof, with the starting roots put in place.
RECURSIVE RootAll(_, _, _)
RootAll(db, hs, ids) ==
    IF ids = {} THEN db
    ELSE LET i == CHOOSE i \in ids : \A j \in ids : i <= j
             rest == RootAll(db, hs, ids \ {i})
         IN IF hs[i].own THEN Rootify(rest, HRoot(hs[i])) ELSE rest
FromProof(ps, hs, w) == [db |-> RootAll(Populate(EmptyStore(w), ps), hs, DOMAIN hs), hs |-> hs]

\* Results of operations one after the other.
RootAfter(x, e) ==
    LET i == IF "to" \in DOMAIN e THEN e.to ELSE IF "h" \in DOMAIN e THEN e.h ELSE 0
    IN IF i \in DOMAIN x.hs THEN HRoot(x.hs[i]) ELSE ""
Outcome(x, e) == [res |-> x.res, out |-> x.out, root |-> RootAfter(x, e)]
RECURSIVE RunAll(_, _, _, _)
RunAll(ws, mode, w, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET x == WApply(ws, mode, w, Head(ops))
         IN <<Outcome(x, Head(ops))>> \o RunAll([db |-> x.db, hs |-> x.hs], mode, w, Tail(ops))
=============================================================================
