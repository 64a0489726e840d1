------------------------------ MODULE MCBackend ------------------------------
(* Short sequences of operations of containers, raw trees and the store     *)
(* itself, with the results they have through whatever wrapper, and those   *)
(* the discarding backend gives to the store's own.                         *)
EXTENDS Proving, TLC, Json

CONSTANTS Kinds, Modes, Lens, Ops

W == 8
EW == 12

VARIABLES cf, ws, hist, outs, ro
vars == <<cf, ws, hist, outs, ro>>

Ltr(i) == BytesHex([k \in 1..W |-> IF k = 1 THEN i ELSE 0])
Letters == {Zero(W), Ltr(17)}
El(kind, i) == IF IsPacked(kind) THEN BytesHex([k \in 1..EW |-> i + k]) ELSE IF i = 3 THEN Zero(W) ELSE Ltr(i)
Setup ==
    IF cf.kind = "raw"
    THEN << [op |-> "raw", h |-> 1, own |-> TRUE] >>
         \o [i \in 1..cf.n |-> [op |-> "rset", h |-> 1, path |-> <<(i \div 2) % 2, i % 2>>, v |-> Ltr(i)]]
    ELSE << [op |-> "create", h |-> 1, kind |-> cf.kind, ew |-> IF IsPacked(cf.kind) THEN EW ELSE 0, n |-> 0, max |-> -1] >>
         \o [i \in 1..cf.n |-> [op |-> "push", h |-> 1, v |-> El(cf.kind, i)]]

RECURSIVE Fold(_, _, _)
Fold(x, mode, ops) ==
    IF ops = <<>> THEN x
    ELSE LET y == WApply(x, mode, W, Head(ops)) IN Fold([db |-> y.db, hs |-> y.hs], mode, Tail(ops))

Init ==
    /\ cf \in [mode : Modes, kind : Kinds, n : Lens]
    /\ ws = Fold(NewWorld(W), cf.mode, Setup)
    /\ hist = <<>> /\ outs = <<>> /\ ro = <<>>

Own == {"insert", "rootify", "unrootify", "dbget"}
Discarded(e) == IF e.op = "dbget" THEN "backend Noop" ELSE IF e.op \in Own THEN "ok" ELSE ""

Step(e, x, o, ro2) ==
    /\ Len(hist) < Ops
    /\ hist' = Append(hist, e) /\ outs' = Append(outs, o) /\ ro' = ro2
    /\ ws' = [db |-> x.db, hs |-> x.hs]
    /\ UNCHANGED cf
    /\ Len(hist') = Ops => Emit("EDGE", ToJson([mode |-> cf.mode, setup |-> Setup, ops |-> hist', outs |-> outs',
                            noop |-> [i \in 1..Len(hist') |-> Discarded(hist'[i])]]))
Act(e) == LET x == WApply(ws, cf.mode, W, e) IN Step(e, x, Outcome(x, e), ro)
Store1(e, ro2) == LET x == WApply(ws, cf.mode, W, e) IN Step(e, x, [res |-> "ok", out |-> "", root |-> ""], ro2)

H == ws.hs[1]
Vals == IF IsPacked(cf.kind) THEN {Zeros(2 * EW), El("pvec", 9)} ELSE Letters \cup {HRoot(H)}
Paths == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 1>>}
Next ==
    \/ /\ 1 \in DOMAIN ws.hs
       /\ \/ /\ cf.kind # "raw"
             /\ \/ \E v \in Vals : Act([op |-> "push", h |-> 1, v |-> v])
                \/ Act([op |-> "pop", h |-> 1])
                \/ \E j \in 0..HLen(H), v \in Vals : Act([op |-> "set", h |-> 1, i |-> j, v |-> v])
                \/ \E j \in 0..HLen(H) : Act([op |-> "get", h |-> 1, i |-> j])
                \/ IsList(cf.kind) /\ Act([op |-> "recon", h |-> 1])
          \/ /\ cf.kind = "raw"
             /\ \/ \E p \in Paths, v \in Vals : Act([op |-> "rset", h |-> 1, path |-> p, v |-> v])
                \/ \E p \in Paths : Act([op |-> "rget", h |-> 1, path |-> p])
                \/ 2 \notin DOMAIN ws.hs /\ \E p \in Paths : Act([op |-> "subtree", h |-> 1, to |-> 2, path |-> p])
          \/ Act([op |-> "drop", h |-> 1])
    \/ LET vs == Letters \cup DOMAIN ws.db IN
       \/ \E a, b \in Letters \cup {HRoot(ws.hs[i]) : i \in DOMAIN ws.hs} : Store1([op |-> "insert", l |-> a, r |-> b], ro)
       \/ \E v \in vs : Store1([op |-> "rootify", v |-> v], Append(ro, v))
       \/ ro # <<>> /\ Store1([op |-> "unrootify", v |-> ro[Len(ro)]], SubSeq(ro, 1, Len(ro) - 1))
       \/ \E v \in vs \cup {Ltr(99)} :
             LET k == Kids(ws.db, v)
             IN Step([op |-> "dbget", v |-> v], ws, [res |-> "ok", out |-> IF k = <<>> THEN "none" ELSE k[1] \o k[2], root |-> ""], ro)
Spec == Init /\ [][Next]_vars

Wrong == ~WellFormed(ws.db)
Kept == ~Wrong
=============================================================================
