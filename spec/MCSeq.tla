------------------------------- MODULE MCSeq -------------------------------
(* Exhaustive exploration of one container per configuration: the           *)
(* implementation-shaped operations of Impl against the abstract ones of    *)
(* Containers, and the state of the store after each of them.  Every        *)
(* transition is printed with everything observable about it, to be         *)
(* replayed in the real code.                                               *)
EXTENDS Impl, TLC, Json

CONSTANTS Kinds,      \* container kinds to explore
          Limits,     \* maximum lengths to explore; -1 for none
          PackedWidths, \* set of <<tree value width, element width>>
          MaxLen,     \* longest container
          PMaxLen     \* longest packed container

Modes == {"inherited", "unit"}

\* Values for the constants (configuration files know neither negative
\* numbers nor tuples).
NoWidths == {}
PlainLimits == {-1, 0, 1, 2, 3, 4, 5}
FewLimits == {-1, 1, 3}
AllLimits == {0, 1, 2, 3, 4}
SmallWidths == {<<8, 3>>, <<8, 5>>, <<8, 8>>, <<8, 12>>}
MoreWidths == {<<8, 1>>, <<8, 20>>, <<16, 6>>, <<16, 24>>, <<32, 7>>, <<32, 31>>, <<32, 33>>, <<32, 64>>}

Configs ==
    {[mode |-> m, kind |-> k, w |-> 32, ew |-> 0, max |-> x] :
        m \in Modes, k \in {k \in Kinds : ~IsPacked(k)}, x \in Limits}
  \cup
    {[mode |-> m, kind |-> k, w |-> p[1], ew |-> p[2], max |-> x] :
        m \in Modes, k \in {k \in Kinds : IsPacked(k)}, p \in PackedWidths, x \in Limits}

VARIABLES cf, open, db, hd, abs
vars == <<cf, open, db, hd, abs>>

\* The store of a vector is a function of the rest; that of a list may hold
\* garbage, which a quick run does not tell apart.
View == <<cf, open, abs>>

Ml(c) == IF c.max = -1 THEN <<>> ELSE <<BigOf(c.max)>>

Rep(s, n) == JoinAll([i \in 1..n |-> s])
\* Zero, and a value of distinct bytes.
ElemW(c) == IF c.ew = 0 THEN c.w ELSE c.ew
Vals(c) == {Zeros(2 * ElemW(c)), BytesHex([i \in 1..ElemW(c) |-> (i * 7) % 256])}
Bound(c) == IF c.ew = 0 THEN MaxLen ELSE PMaxLen

NoHandle == [root |-> "", len |-> 0, max |-> -1]

Init == /\ cf \in Configs
        /\ open = "new"
        /\ db = EmptyStore(cf.w)
        /\ hd = NoHandle
        /\ abs = Container(cf.kind, cf.ew, Ml(cf), <<>>)

Key(o, a) == ToString(<<cf, o>>) \o JoinAll(a.es) \o ToString(Len(a.es))

AbsRoot(a) == Root(cf.mode, cf.w, a)

\* Stores of vectors are predicted exactly, those of lists only bounded.
Exact == ~IsList(cf.kind)

Edge(e, res, out, o2, a2, db2) ==
    Emit("EDGE", ToJson(
        [mode |-> cf.mode, w |-> cf.w,
         s |-> Key(open, abs), t |-> Key(o2, a2), op |-> e,
         obs |-> IF o2 = "open"
                 THEN [res |-> res, out |-> out, root |-> AbsRoot(a2), elems |-> a2.es, over |-> "overflow"]
                      @@ (IF Exact THEN [db |-> DOMAIN db2] ELSE << >>)
                 ELSE [res |-> res, out |-> out]
                      @@ (IF Exact THEN [db |-> DOMAIN db2] ELSE << >>)]))

Head4 == [kind |-> cf.kind, ew |-> cf.ew, ml |-> Ml(cf)]

Create ==
    /\ open = "new"
    /\ \E n \in 0..(Bound(cf) + 1) :
         \* containers with unread unit-empty elements are out of scope
         /\ cf.mode = "unit" => n = 0
         /\ cf.max = -1 => n <= Bound(cf)
         /\ LET e == [op |-> "create", n |-> n] @@ Head4
                x == ICreate(db, cf.mode, cf.w, cf.kind, cf.ew, n, cf.max)
                r == CreateRes(cf.w, cf.kind, cf.ew, Ml(cf), n)
                a == Created(cf.w, cf.kind, cf.ew, Ml(cf), n)
            IN /\ Assert(x.res = r, <<"create", cf, n>>)
               /\ IF r = "ok"
                  THEN /\ open' = "open" /\ db' = x.db /\ hd' = x.hd /\ abs' = a
                  ELSE open' = "failed" /\ UNCHANGED <<db, hd, abs>>
               /\ Edge(e, r, "", open', abs', db')
    /\ UNCHANGED cf

Op(e) ==
    LET x == IApply(db, cf.mode, cf.w, TRUE, cf.kind, hd, e)
        y == Apply(abs, e)
    IN /\ Assert(x.res = y.res /\ x.out = y.out, <<"results differ", cf, abs, e, x, y>>)
       /\ Len(y.c.es) <= Bound(cf)
       /\ db' = x.db /\ hd' = x.hd /\ abs' = y.c
       /\ UNCHANGED <<cf, open>>
       /\ Edge(e @@ Head4, y.res, y.out, open, y.c, x.db)

DoPush == open = "open" /\ \E v \in Vals(cf) : Op([op |-> "push", v |-> v])
DoPop == open = "open" /\ Op([op |-> "pop"])
DoGet == open = "open" /\ \E i \in 0..(Len(abs.es) + 1) : Op([op |-> "get", i |-> i])
DoSet == open = "open" /\ \E i \in 0..(Len(abs.es) + 1), v \in Vals(cf) : Op([op |-> "set", i |-> i, v |-> v])
\* Closing and re-opening by metadata, raw tree or root.
Reopen == /\ open = "open" /\ UNCHANGED vars
          /\ \A how \in 0..2 : Edge([op |-> "reopen", i |-> how] @@ Head4, "ok", "", open, abs, db)
Drop == /\ open = "open"
        /\ open' = "closed"
        /\ db' = Unrootify(db, IRoot(cf.kind, hd))
        /\ hd' = NoHandle
        /\ abs' = [abs EXCEPT !.es = <<>>]
        /\ UNCHANGED cf
        /\ Edge([op |-> "drop"] @@ Head4, "ok", "", "closed", abs', db')

Next == Create \/ DoPush \/ DoPop \/ DoGet \/ DoSet \/ Reopen \/ Drop

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The tree the handle refers to has the root its contents demand,
RootCanonical == open = "open" => IRoot(cf.kind, hd) = AbsRoot(abs) /\ ILen(cf.kind, hd) = Len(abs.es)
\* every element reads back,
ReadsBack == open = "open" =>
    \A i \in 0..(Len(abs.es) - 1) : IApply(db, cf.mode, cf.w, TRUE, cf.kind, hd, [op |-> "get", i |-> i]).out = abs.es[i + 1]
\* everything it needs is stored, and the store is consistent;
Stored == /\ WellFormed(db)
          /\ open = "open" => Reach(db, {IRoot(cf.kind, hd)}) \subseteq DOMAIN db
\* without lists nothing else is stored, and links are counted exactly.
NoGarbage == Exact =>
    LET roots == IF open = "open" THEN {IRoot(cf.kind, hd)} ELSE {}
    IN /\ DOMAIN db = Reach(db, roots) \cup {Zero(cf.w)}
       /\ \A k \in DOMAIN db \ {Zero(cf.w)} :
             db[k].c = Links(db, k) + (IF k \in roots THEN 1 ELSE 0)
=============================================================================
