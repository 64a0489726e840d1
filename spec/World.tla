------------------------------- MODULE World -------------------------------
(* Several handles over one store: raw trees and containers, owned ones and *)
(* dangling ones, and the store's own operations.                           *)
(*                                                                          *)
(* A world is [db, hs]; hs maps handle numbers to                           *)
(*   [kind, own, ew, max, hd]    with hd = [root] for kind "raw".           *)
EXTENDS Impl

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewWorld(w) == [db |-> EmptyStore(w), hs |-> << >>]

HRoot(h) == IF h.kind = "raw" THEN h.hd.root ELSE IRoot(h.kind, h.hd)
HLen(h) == IF h.kind = "raw" THEN 0 ELSE ILen(h.kind, h.hd)

WR(ws, db, hs, res, out) == [db |-> db, hs |-> hs, res |-> res, out |-> out]

Proof(e) == {<<p[1], p[2], p[3]>> : p \in {e.ps[i] : i \in DOMAIN e.ps}}

\* One operation: the next world with the result of the operation.
WApply(ws, mode, w, e) ==
    LET db == ws.db
        hs == ws.hs
        h  == IF "h" \in DOMAIN e THEN hs[e.h] ELSE [own |-> FALSE]
        S(x, hs2) == WR(ws, x, hs2, "ok", "")
    IN
    CASE e.op = "create" ->
            LET x == ICreate(db, mode, w, e.kind, e.ew, e.n, e.max)
            IN IF x.res # "ok" THEN WR(ws, db, hs, x.res, "")
               ELSE WR(ws, x.db, Put(hs, e.h, [kind |-> e.kind, own |-> TRUE, ew |-> e.ew, max |-> e.max, hd |-> x.hd]), "ok", "")
      [] e.op = "raw" ->
            S(db, Put(hs, e.h, [kind |-> "raw", own |-> e.own, ew |-> 0, max |-> -1, hd |-> [root |-> Zero(w)]]))
      [] e.op = "open" ->         \* a raw tree at a given root
            S(IF e.own THEN Rootify(db, e.root) ELSE db,
              Put(hs, e.h, [kind |-> "raw", own |-> e.own, ew |-> 0, max |-> -1, hd |-> [root |-> e.root]]))
      [] e.op = "rset" ->
            LET x == SetAt(db, w, h.own, h.hd.root, e.path, e.v)
            IN S(x[1], Put(hs, e.h, [h EXCEPT !.hd.root = x[2]]))
      [] e.op = "rget" ->
            LET v == At(db, h.hd.root, e.path)
            IN WR(ws, db, hs, "ok", IF v = <<>> THEN "none" ELSE v[1])
      [] e.op = "subtree" ->
            LET v == At(db, HRoot(h), e.path)
            IN IF v = <<>> THEN WR(ws, db, hs, "corrupted", "")
               ELSE S(db, Put(hs, e.to, [kind |-> "raw", own |-> FALSE, ew |-> 0, max |-> -1, hd |-> [root |-> v[1]]]))
      [] e.op \in {"push", "pop", "get", "set"} ->
            LET x == IApply(db, mode, w, h.own, h.kind, h.hd, e)
            IN WR(ws, x.db, Put(hs, e.h, [h EXCEPT !.hd = x.hd]), x.res, x.out)
      [] e.op = "fork" ->         \* a dangling handle on the same tree
            S(db, Put(hs, e.to, [h EXCEPT !.own = FALSE]))
      [] e.op = "adopt" ->        \* an owned handle on the same tree
            S(Rootify(db, HRoot(h)), Put(hs, e.to, [h EXCEPT !.own = TRUE]))
      [] e.op = "drop" ->
            S(IF h.own THEN Unrootify(db, HRoot(h)) ELSE db, Del(hs, e.h))
      [] e.op = "recon" ->        \* closed to its root and opened again
            S(db, hs)
      [] e.op = "forget" ->       \* a dangling handle goes out of use
            S(db, Del(hs, e.h))
      [] e.op = "insert" -> S(InsertNode(db, e.l, e.r), hs)
      [] e.op = "rootify" -> S(Rootify(db, e.v), hs)
      [] e.op = "unrootify" -> S(Unrootify(db, e.v), hs)
      [] e.op = "populate" -> S(Populate(db, Proof(e)), hs)

Owners(ws, k) == Cardinality({i \in DOMAIN ws.hs : ws.hs[i].own /\ HRoot(ws.hs[i]) = k})
OwnedRoots(ws) == {HRoot(ws.hs[i]) : i \in {j \in DOMAIN ws.hs : ws.hs[j].own}}
Live(ws) == Reach(ws.db, OwnedRoots(ws))
Garbage(ws, w) == DOMAIN ws.db \ (Live(ws) \cup {Zero(w)})
=============================================================================
