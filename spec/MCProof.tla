------------------------------ MODULE MCProof ------------------------------
(* Every short sequence of operations on a recording, from several starting *)
(* worlds; what was recorded has to be enough to run them again.            *)
EXTENDS Proving, TLC, Json

CONSTANTS Kinds,    \* of the container
          Modes,
          Lens,     \* elements it starts with
          Ops,      \* recorded operations
          Wide,     \* whether a raw tree and further handles take part
          Twin      \* whether it is another container with the same content instead

W == 8
EW == 12

VARIABLES cf, setup, hist, outs, rec, db0, hs0
vars == <<cf, setup, hist, outs, rec, db0, hs0>>

Ltr(i) == BytesHex([k \in 1..W |-> IF k = 1 THEN i ELSE 0])
Letters == {Zero(W), Ltr(17)}

\* How the world of a configuration is built.
El(kind, i) == IF IsPacked(kind) THEN BytesHex([k \in 1..EW |-> i + k]) ELSE IF i = 3 \/ Twin THEN Zero(W) ELSE Ltr(i)
SetupOf(c) ==
    (IF c.kind = "raw"
     THEN << [op |-> "raw", h |-> 1, own |-> TRUE] >>
          \o [i \in 1..c.n |-> [op |-> "rset", h |-> 1, path |-> <<(i \div 2) % 2, i % 2>>, v |-> Ltr(i)]]
     ELSE << [op |-> "create", h |-> 1, kind |-> c.kind, ew |-> IF IsPacked(c.kind) THEN EW ELSE 0, n |-> 0, max |-> -1] >>
          \o [i \in 1..c.n |-> [op |-> "push", h |-> 1, v |-> El(c.kind, i)]])
    \o (IF c.second THEN << [op |-> "raw", h |-> 2, own |-> TRUE],
                            [op |-> "rset", h |-> 2, path |-> <<0, 1>>, v |-> Ltr(1)],
                            [op |-> "rset", h |-> 2, path |-> <<1>>, v |-> Ltr(2)] >>
        ELSE <<>>)

RECURSIVE Fold(_, _, _)
Fold(ws, mode, ops) ==
    IF ops = <<>> THEN ws
    ELSE LET x == WApply(ws, mode, W, Head(ops)) IN Fold([db |-> x.db, hs |-> x.hs], mode, Tail(ops))

Init ==
    /\ cf \in [mode : Modes, kind : Kinds, n : Lens, second : IF Wide THEN {TRUE} ELSE {FALSE}]
    /\ setup = SetupOf(cf)
    /\ rec = [ws |-> Fold(NewWorld(W), cf.mode, setup), ps |-> {}, ins |-> {}]
    /\ db0 = rec.ws.db
    /\ hs0 = rec.ws.hs
    /\ hist = <<>>
    /\ outs = <<>>

hs == rec.ws.hs
Here(i) == i \in DOMAIN hs
Owning == OwnedRoots(rec.ws)
\* Dangling handles are used while a tree held by the sequence is theirs.
Usable(i) == hs[i].own \/ HRoot(hs[i]) \in Letters
             \/ (IF hs[i].kind = "raw" THEN HRoot(hs[i]) \in Live(rec.ws) ELSE HRoot(hs[i]) \in Owning)
TreeVals == Letters \cup {HRoot(hs[i]) : i \in {i \in DOMAIN hs : hs[i].own}}

Act(e) ==
    LET x  == WApply(rec.ws, cf.mode, W, e)
        w2 == [db |-> x.db, hs |-> x.hs]
    IN /\ Len(hist) < Ops
       /\ hist' = Append(hist, e)
       /\ outs' = Append(outs, Outcome(x, e))
       /\ rec' = RStep(rec, w2, W, e)
       /\ UNCHANGED <<cf, setup, db0, hs0>>
       /\ Emit("EDGE", ToJson([mode |-> cf.mode, setup |-> setup, ops |-> hist', outs |-> outs']))

EVals(i) == IF IsPacked(hs[i].kind) THEN {Zeros(2 * EW), El("pvec", 9)} ELSE IF Wide THEN TreeVals ELSE Letters
SeqOps(i) ==
    /\ Here(i) /\ hs[i].kind # "raw" /\ Usable(i)
    /\ \/ \E v \in EVals(i) : Act([op |-> "push", h |-> i, v |-> v])
       \/ Act([op |-> "pop", h |-> i])
       \/ \E j \in 0..(HLen(hs[i]) - 1), v \in EVals(i) : Act([op |-> "set", h |-> i, i |-> j, v |-> v])
       \/ \E j \in 0..HLen(hs[i]) : Act([op |-> "get", h |-> i, i |-> j])
       \/ IsList(hs[i].kind) /\ hs[i].own /\ Act([op |-> "recon", h |-> i])
Paths == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 1>>}
RawOps(i) ==
    /\ Here(i) /\ hs[i].kind = "raw" /\ Usable(i)
    /\ \/ \E p \in Paths, v \in TreeVals : Act([op |-> "rset", h |-> i, path |-> p, v |-> v])
       \/ \E p \in Paths : Act([op |-> "rget", h |-> i, path |-> p])
       \/ Wide /\ ~Here(3) /\ \E p \in {<<0>>, <<1, 1>>} : Act([op |-> "subtree", h |-> i, to |-> 3, path |-> p])
\* A container of zeros, which shares nodes with the one that is there.
Twins ==
    \/ \E j \in {0, HLen(hs[1]) - 1} : j >= 0 /\ (Act([op |-> "get", h |-> 1, i |-> j]) \/ Act([op |-> "set", h |-> 1, i |-> j, v |-> IF IsPacked(hs[1].kind) THEN El("pvec", 9) ELSE Ltr(17)]))
    \/ Act([op |-> "pop", h |-> 1])
    \/ ~Here(5) /\ \E n \in {1, 2, 4, 5} :
          Act([op |-> "create", h |-> 5, kind |-> "vec", ew |-> 0, n |-> IF cf.mode = "unit" THEN 0 ELSE n, max |-> -1])
    \/ Here(5) /\ (Act([op |-> "drop", h |-> 5]) \/ Act([op |-> "push", h |-> 5, v |-> Zero(W)]))
Next == IF Twin THEN Twins ELSE
    \/ \E i \in {1, 2, 3} : SeqOps(i) \/ RawOps(i)
    \/ Wide /\ ~Here(4) /\ \E i \in DOMAIN hs : Usable(i) /\ (Act([op |-> "adopt", h |-> i, to |-> 4]) \/ Act([op |-> "fork", h |-> i, to |-> 4]))
    \/ Wide /\ \E i \in DOMAIN hs : Act([op |-> "drop", h |-> i])
    \/ Wide /\ ~Here(5) /\ cf.kind # "raw" /\
          Act([op |-> "create", h |-> 5, kind |-> cf.kind, ew |-> IF IsPacked(cf.kind) THEN EW ELSE 0, n |-> IF cf.mode = "unit" \/ IsList(cf.kind) THEN 0 ELSE 2, max |-> -1])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sufficient == RunAll(FromProof(rec.ps, hs0, W), cf.mode, W, hist) = outs
Genuine == \A p \in rec.ps : Kids(db0, p[1]) = <<p[2], p[3]>>
OnPath ==
    (\A i \in DOMAIN hist : ReadOnly(hist[i])) =>
        \A p \in rec.ps : \E i \in DOMAIN hist : p[1] \in Reads([db |-> db0, hs |-> rec.ws.hs], W, hist[i])
\* Any part of the proof shows what was there, or nothing.
Honest ==
    Cardinality(rec.ps) <= 6 =>
    \A some \in SUBSET rec.ps : \A i \in DOMAIN hs0 : \A p \in Paths :
        LET v == At(Populate(EmptyStore(W), some), HRoot(hs0[i]), p)
        IN v = <<>> \/ v = At(db0, HRoot(hs0[i]), p)
=============================================================================
