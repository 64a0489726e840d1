------------------------------ MODULE MCSparse ------------------------------
(* Containers whose tree is only partly there, or is another one somewhere: *)
(* opened, read, and changed.  Every state is printed with the whole way    *)
(* there and what each step gives.                                          *)
EXTENDS Sparse, TLC, IOUtils

CONSTANTS Kinds, Modes, EWs, Limits, Lens, Ops,
          Lost,      \* nodes lost at a time, at most
          Twin       \* TRUE: elements come in pairs of equal ones

NoLimit == {-1}
SomeLimits == {-1, 5}
MoreLimits == {-1, 4, 7, 20}

VARIABLES c0, c, mode, how, dmg, st, hist
vars == <<c0, c, mode, how, dmg, st, hist>>

Ml(m) == IF m = -1 THEN <<>> ELSE <<BigOf(m)>>
Elem(w, i) == BytesHex([j \in 1..w |-> 1 + ((i * 37 + j * 11) % 250)])
El(k, ew, i) == Elem(IF C!IsPacked(k) THEN ew ELSE W, IF Twin THEN i \div 2 ELSE i)

Init ==
    \E k \in Kinds, m \in Modes, l \in Limits, n \in Lens, w \in EWs :
        /\ l # -1 => n <= l
        /\ ~C!IsPacked(k) => w = CHOOSE x \in EWs : TRUE
        /\ c = C!Container(k, IF C!IsPacked(k) THEN w ELSE 0, Ml(l), [i \in 1..n |-> El(k, w, i)])
        /\ c0 = c /\ mode = m
        /\ how \in (IF C!IsList(k) THEN {"root", "meta"} ELSE {"meta"})
        /\ dmg = <<"none">> /\ st = {} /\ hist = <<>>

Whole == NodesOf(mode, c)
Keys(ns) == {x[1] : x \in ns}
St(ns) == [k \in Keys(ns) \cup {""} |-> IF k = "" THEN <<>> ELSE LET x == CHOOSE y \in ns : y[1] = k IN <<x[2], x[3]>>]

\* Only some of the nodes are there: all but a few, or those on one way.
Some_ ==
    /\ dmg = <<"none">>
    /\ \/ \E gone \in {{}} \cup {{a} : a \in Keys(Whole)} \cup (IF Lost > 1 THEN {{a, b} : a, b \in Keys(Whole)} ELSE {}) :
             st' = Keys(Whole) \ gone
       \/ \E h \in 0..(Len(HostsOf(c)) - 1) :
             st' = Way(mode, c, h) \cup (IF C!IsList(c.kind) THEN {RootOf(mode, c)} ELSE {})
    /\ dmg' = <<"some", {x \in Whole : x[1] \in st'}, RootOf(mode, c)>>
    /\ UNCHANGED <<c0, c, mode, how, hist>>

\* Another value somewhere in the tree.
RECURSIVE PutAt(_, _, _, _)
PutAt(s, root, path, x) ==
    IF path = <<>> THEN <<x, {}>>
    ELSE LET l == s[root][1]
             r == s[root][2]
             a == PutAt(s, IF Head(path) = 0 THEN l ELSE r, Tail(path), x)
             n == IF Head(path) = 0 THEN <<a[1], r>> ELSE <<l, a[1]>>
             k == ShaHash(n[1], n[2])
         IN <<k, a[2] \cup {<<k, n[1], n[2]>>}>>
Zeroes == {ZeroTree[W][k] : k \in 1..65}
RECURSIVE Positions(_, _, _)
Positions(s, root, path) ==
    {path} \cup IF root \in DOMAIN s /\ root \notin Zeroes
                THEN Positions(s, s[root][1], Append(path, 0)) \cup Positions(s, s[root][2], Append(path, 1))
                ELSE {}
Stuff == {Z, Elem(W, 99), RootOf(mode, c), Inner(mode, c)} \cup {NumVal(W, k) : k \in 1..9}
Put_ ==
    /\ dmg = <<"none">> /\ how = IF C!IsList(c.kind) THEN "root" ELSE "meta"
    /\ LET s == St(Whole) IN
       \E p \in Positions(s, RootOf(mode, c), <<>>), x \in Stuff :
          LET q == PutAt(s, RootOf(mode, c), p, x) IN dmg' = <<"put", Whole \cup q[2], q[1]>>
    /\ UNCHANGED <<c0, c, mode, how, st, hist>>

\* What the tree says the length is: <<>> when it cannot be told, or is none
\* the container could have.
Tells ==
    IF ~C!IsList(c.kind) THEN <<Len(c.es)>>
    ELSE LET x == Look(St(dmg[2]), dmg[3], <<1>>) IN IF x = <<>> THEN <<>> ELSE Number(x[1])
InLimits(n) == c.ml = <<>> \/ LeqBig(n, c.ml[1])

\* An element of a tree which is as it is.
ReadAt(n, i) ==
    LET s == St(dmg[2])
        d == DepthOf([c EXCEPT !.es = [k \in 1..n |-> El(c.kind, c.ew, 1)]])
        r == IF C!IsList(c.kind) THEN Look(s, dmg[3], <<0>>) ELSE <<dmg[3]>>
        at(h) == IF r = <<>> THEN <<>> ELSE Look(s, r[1], PathOf(h, d))
        hs == Covers(c, i)
        lo == CHOOSE h \in hs : \A g \in hs : h <= g
        v == All([k \in 1..Cardinality(hs) |-> at(lo + k - 1)])
    IN IF v = <<>> THEN [res |-> "corrupted", out |-> ""]
       ELSE [res |-> "ok", out |-> IF C!IsPacked(c.kind)
                                   THEN SubSeq(JoinAll(v[1]), 2 * (i * c.ew - lo * W) + 1, 2 * (i * c.ew - lo * W + c.ew))
                                   ELSE v[1][1]]

Opens == OpensBy(how, c, mode, st)
Do(e) == Outcome(mode, c, st, e)
Cmds == {[op |-> "pop"], [op |-> "push", v |-> El(c.kind, c.ew, 40)]}
    \cup {[op |-> "set", i |-> i, v |-> El(c.kind, c.ew, 50)] : i \in 0..(Len(c.es) - 1)}
Step ==
    /\ dmg[1] = "some" /\ Opens /\ Len(hist) < Ops
    /\ \E e \in Cmds :
          LET x == Do(e) IN
          /\ x.judged
          /\ c' = x.c /\ st' = x.st
          /\ hist' = Append(hist, [e |-> e, res |-> x.res, out |-> x.out, root |-> RootOf(mode, x.c), n |-> Len(x.c.es)])
    /\ UNCHANGED <<c0, mode, how, dmg>>

Next == Some_ \/ Put_ \/ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What is read is what the tree on the whole holds (never another answer).
Honest == dmg[1] = "some" /\ Opens =>
    \A i \in 0..(Len(c.es) - 1) : LET x == Do([op |-> "get", i |-> i]) IN x.res \in {"ok", "corrupted"} /\ (x.res = "ok" => x.out = c.es[i + 1])
\* A whole tree answers everything.
Answers == dmg[1] = "some" /\ hist = <<>> /\ st = Keys(Whole) => \A e \in Cmds : Do(e).judged /\ Do(e).res # "corrupted"
\* The nodes on the way are nodes of the tree, and the two ways of looking agree.
Agree == dmg[1] = "some" /\ hist = <<>> =>
    LET n == Len(c.es) IN
    /\ st \subseteq Keys(Whole)
    /\ Opens /\ (C!IsList(c.kind) => RootOf(mode, c) \in st) =>
         \A i \in 0..(n - 1) : LET x == Do([op |-> "get", i |-> i]) IN ReadAt(n, i) = [res |-> x.res, out |-> x.out]


About == [kind |-> c0.kind, ew |-> c0.ew, mode |-> mode, how |-> how, ml |-> c0.ml, es |-> c0.es, part |-> dmg[1],
          nodes |-> dmg[2], root |-> dmg[3], opens |-> "ok", hist |-> hist, n |-> Len(c.es), reads |-> <<>>]
Reading(n) == [i \in 1..(n + 1) |-> IF i = n + 1 THEN [res |-> "overflow", out |-> ""] ELSE
                 IF dmg[1] = "put" THEN ReadAt(n, i - 1)
                 ELSE LET x == Do([op |-> "get", i |-> i - 1]) IN [res |-> x.res, out |-> x.out]]
Told ==
    CASE dmg[1] = "none" -> TRUE
      [] dmg[1] = "some" -> Emit("EDGE", ToJson(
            IF ~Opens THEN [About EXCEPT !.opens = "corrupted"] ELSE [About EXCEPT !.reads = Reading(Len(c.es))]))
      [] OTHER ->
            IF dmg[3] \notin Keys(dmg[2]) /\ C!IsList(c.kind) THEN Emit("EDGE", ToJson([About EXCEPT !.opens = "corrupted"]))
            ELSE IF Tells = <<>> THEN TRUE
            ELSE IF Tells[1] > 20 \/ ~InLimits(Tells[1]) THEN TRUE
            ELSE Emit("EDGE", ToJson([About EXCEPT !.n = Tells[1], !.reads = Reading(Tells[1])]))
=============================================================================
