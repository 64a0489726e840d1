------------------------------- MODULE MCFault -------------------------------
(* A container or raw tree (handle 1), perhaps sharing its tree with        *)
(* another handle (2), and a backend that fails at any of the writes of any *)
(* operation, up to a number of times.  Whatever fails, owned trees are     *)
(* complete and counted, handles are as before, and later operations do     *)
(* what they do in a world where nothing failed.                            *)
EXTENDS Fault, TLC, Json

CONSTANTS Kinds, Modes, Lens, Limits, EWs, Share, Ops, Faults,
          Tell       \* replay operations after at most this many others

W == 8

VARIABLES cf, ws, want, hist, faults
vars == <<cf, ws, want, hist, faults>>

NoLimit == {-1}
SomeLimits == {-1, 4}

Ltr(i) == BytesHex([k \in 1..W |-> IF k = 1 THEN i ELSE 0])
El(c, i) == IF IsPacked(c.kind) THEN BytesHex([k \in 1..c.ew |-> i + k]) ELSE IF i = 3 THEN Zero(W) ELSE Ltr(i)

Setup(c) ==
    (IF c.kind = "raw"
     THEN << [op |-> "raw", h |-> 1, own |-> TRUE] >>
          \o [i \in 1..c.n |-> [op |-> "rset", h |-> 1, path |-> <<(i \div 2) % 2, i % 2>>, v |-> Ltr(i)]]
     ELSE << [op |-> "create", h |-> 1, kind |-> c.kind, ew |-> c.ew, n |-> 0, max |-> c.max] >>
          \o [i \in 1..c.n |-> [op |-> "push", h |-> 1, v |-> El(c, i)]])
    \o CASE c.share = "none"  -> <<>>
         [] c.share = "adopt" -> << [op |-> "adopt", h |-> 1, to |-> 2] >>
         [] c.share = "over"  -> << [op |-> "raw", h |-> 2, own |-> TRUE],
                                    [op |-> "rset", h |-> 2, path |-> <<1>>, v |-> "root"] >>
\* The raw tree over the container's.
Fix(x, e) == IF e.op = "rset" /\ e.v = "root" THEN [e EXCEPT !.v = HRoot(x.hs[1])] ELSE e

RECURSIVE Fold(_, _, _)
Fold(x, mode, ops) ==
    IF ops = <<>> THEN x
    ELSE LET y == WApply(x, mode, W, Fix(x, Head(ops))) IN Fold([db |-> y.db, hs |-> y.hs], mode, Tail(ops))
RECURSIVE Fixed(_, _, _)
Fixed(x, mode, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET e == Fix(x, Head(ops))
             y == WApply(x, mode, W, e)
         IN <<e>> \o Fixed([db |-> y.db, hs |-> y.hs], mode, Tail(ops))

\* What handles hold: of raw trees the nodes with children.
Holds(x, h) == IF h.kind = "raw" THEN {<<k, Kids(x.db, k)>> : k \in {k \in Reach(x.db, {HRoot(h)}) : Kids(x.db, k) # <<>>}}
               ELSE Elems(x, cf.mode, W, h)
Held(x) == [i \in DOMAIN x.hs |-> [root |-> HRoot(x.hs[i]), len |-> HLen(x.hs[i]), has |-> Holds(x, x.hs[i])]]

Configs == {c \in [mode : Modes, kind : Kinds, n : Lens, max : Limits, ew : EWs \cup {0}, share : Share] :
                /\ IsPacked(c.kind) <=> c.ew # 0
                /\ c.kind = "raw" => c.max = -1
                /\ c.max # -1 => c.n <= c.max}
Init ==
    /\ cf \in Configs
    /\ ws = Fold(NewWorld(W), cf.mode, Setup(cf))
    /\ want = Held(ws)
    /\ hist = <<>> /\ faults = 0

NodesOf(d, ks) == {<<k, d[k].k>> : k \in {k \in ks : d[k].k # <<>>}}
\* The least count of a node of the live trees.
Least(x) == LET live == Live(x) IN
    {<<k, Owners(x, k) + Cardinality({j \in live : x.db[j].k # <<>> /\ x.db[j].k[1] = k})
                       + Cardinality({j \in live : x.db[j].k # <<>> /\ x.db[j].k[2] = k})>> : k \in live}
Told(x) == [i \in DOMAIN x.hs |-> [h |-> i, kind |-> x.hs[i].kind, root |-> HRoot(x.hs[i]), len |-> HLen(x.hs[i]),
                elems |-> IF x.hs[i].kind = "raw" THEN <<>> ELSE Elems(x, cf.mode, W, x.hs[i])]]
Listed(f) == {f[i] : i \in DOMAIN f}

\* The operation as it is, and as it is when a call fails.
Act(e) ==
    LET f == Fix(ws, e)
        x == WApply(ws, cf.mode, W, f)
        y == [db |-> x.db, hs |-> x.hs]
        all == Worlds(ws, cf.mode, W, f)
    IN
    /\ Len(hist) < Ops
    /\ hist' = Append(hist, f)
    /\ UNCHANGED cf
    /\ \/ /\ ws' = y
          /\ want' = Held(y)
          /\ UNCHANGED faults
          \* the calls add up to the operation
          /\ Assert(all[Len(all)] = y, <<"calls", f>>)
          /\ (faults = 0 /\ Len(hist) <= Tell) => Emit("EDGE", ToJson([mode |-> cf.mode, setup |-> Fixed(NewWorld(W), cf.mode, Setup(cf)) \o hist,
                 op |-> f, out |-> Outcome(x, f), before |-> Listed(Told(ws)), after |-> Listed(Told(y)),
                 need |-> NodesOf(ws.db, Live(IF f.op = "drop" THEN [ws EXCEPT !.hs = Del(@, f.h)] ELSE ws)),
                 least |-> Least(IF f.op = "drop" THEN [ws EXCEPT !.hs = Del(@, f.h)] ELSE ws)]))
       \/ /\ faults < Faults
          /\ \E i \in 1..(Len(all) - 1) : ws' = all[i]
          /\ want' = IF f.op = "drop" THEN Del(want, f.h) ELSE want
          /\ faults' = faults + 1

H == ws.hs[1]
Vals == IF IsPacked(cf.kind) THEN {Zeros(2 * cf.ew), El(cf, 9)} ELSE {Zero(W), Ltr(17)} \cup {HRoot(ws.hs[i]) : i \in DOMAIN ws.hs}
Paths == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 1>>}
OpsOf(i) ==
    LET h == ws.hs[i] IN
    \/ /\ h.kind # "raw"
       /\ \/ \E v \in Vals : Act([op |-> "push", h |-> i, v |-> v])
          \/ Act([op |-> "pop", h |-> i])
          \/ \E j \in 0..(HLen(h) - 1), v \in Vals : Act([op |-> "set", h |-> i, i |-> j, v |-> v])
          \/ \E j \in 0..HLen(h) : Act([op |-> "get", h |-> i, i |-> j])
          \/ IsList(h.kind) /\ Act([op |-> "recon", h |-> i])
    \/ /\ h.kind = "raw"
       /\ \/ \E p \in Paths, v \in IF IsPacked(cf.kind) THEN {Zero(W), Ltr(17)} ELSE Vals : Act([op |-> "rset", h |-> i, path |-> p, v |-> v])
          \/ \E p \in Paths : Act([op |-> "rget", h |-> i, path |-> p])
          \/ 3 \notin DOMAIN ws.hs /\ \E p \in Paths : At(ws.db, HRoot(h), p) # <<>> /\ Act([op |-> "subtree", h |-> i, to |-> 3, path |-> p])
    \/ Act([op |-> "drop", h |-> i])
Next ==
    \/ \E i \in DOMAIN ws.hs \cap {1, 2} : OpsOf(i)
    \/ /\ cf.kind # "raw" /\ cf.n = 0 /\ 3 \notin DOMAIN ws.hs
       /\ \E n \in {0, 1, 3} : (cf.mode = "unit" => n = 0) /\
             Act([op |-> "create", h |-> 3, kind |-> cf.kind, ew |-> cf.ew, n |-> n, max |-> cf.max])
Spec == Init /\ [][Next]_vars
View == <<cf, ws, want, Len(hist), faults>>

-----------------------------------------------------------------------------
Complete == Enough(ws) /\ WellFormed(ws.db)
\* Leaves of raw trees may turn out to be nodes.
AsBefore ==
    \A i \in DOMAIN ws.hs :
        LET h == ws.hs[i] IN
        (h.own) =>
        /\ i \in DOMAIN want /\ want[i].root = HRoot(h) /\ want[i].len = HLen(h)
        /\ IF h.kind = "raw" THEN want[i].has \subseteq Holds(ws, h)
           ELSE /\ want[i].has = Elems(ws, cf.mode, W, h)
                /\ \A j \in DOMAIN want[i].has : want[i].has[j] # <<>>
=============================================================================
