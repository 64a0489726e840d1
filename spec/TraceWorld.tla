----------------------------- MODULE TraceWorld -----------------------------
(* Histories of several handles over one store, recorded from the real      *)
(* code with the store's contents after each step, checked against World.   *)
EXTENDS World, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l,
          ws,       \* what the world must be
          seen,     \* the store as last logged: key -> [k, c]
          facts     \* every node ever inserted or populated: key -> children
vars == <<tid, l, ws, seen, facts>>

T == Traces[tid]
E == T[l]
Mode == T[1].mode
W == T[1].w

\* The logged store as a function.
Logged(st) ==
    LET keys == {st[i][1] : i \in DOMAIN st}
        at == [k \in keys |-> CHOOSE i \in DOMAIN st : st[i][1] = k]
    IN [k \in keys |-> [k |-> st[at[k]][2], c |-> st[at[k]][3]]]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 2
        /\ ws = NewWorld(W)
        /\ seen = EmptyStore(W)
        /\ facts = << >>

Next0 == WApply(ws, Mode, W, E)

HasStore == "store" \in DOMAIN E

Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
NewFacts(x) == Merge(facts, [k \in {k \in DOMAIN x.db : x.db[k].k # <<>>} |-> x.db[k].k])

-----------------------------------------------------------------------------
Sane == E.res \notin {"panic", "hang"}

\* C06: the trees of owned handles are complete and counted;
Protected(x, st) ==
    LET need == Live(x) IN
    \A k \in need :
        /\ k \in DOMAIN st
        /\ x.db[k].k # <<>> => st[k].k = x.db[k].k
        /\ st[k].c = Pinned \/ st[k].c >= Owners(x, k) + Cardinality({j \in need : x.db[j].k # <<>> /\ x.db[j].k[1] = k})
                                                      + Cardinality({j \in need : x.db[j].k # <<>> /\ x.db[j].k[2] = k})
\* an operation through a dangling handle takes nothing away.
Dangling == E.op \in {"rset", "push", "pop", "set", "get", "rget", "drop"} /\ ~ws.hs[E.h].own
Harmless(st) ==
    Dangling => \A k \in DOMAIN seen :
        /\ k \in DOMAIN st
        /\ seen[k].k # <<>> => st[k].k = seen[k].k
        /\ seen[k].c = Pinned => st[k].c = Pinned
        /\ st[k].c # Pinned => st[k].c >= seen[k].c

\* C07: no more garbage than the specification leaves (none but for lists
\* that grow or shrink); without any, counts are exact.  What is live is told
\* by the logged store: packed bytes that happen to be the root they replace
\* keep its children or not as the order of the steps has it.
Exact(x, st) ==
    LET extra == DOMAIN st \ (Reach(st, OwnedRoots(x)) \cup {Zero(W)}) IN
    /\ Cardinality(extra) <= Cardinality(Garbage(x, W))
    /\ Garbage(x, W) = {} =>
          \A k \in DOMAIN st \ {Zero(W)} :
              st[k].c = Owners(x, k) + Cardinality({j \in DOMAIN st : st[j].k # <<>> /\ st[j].k[1] = k})
                                     + Cardinality({j \in DOMAIN st : st[j].k # <<>> /\ st[j].k[2] = k})
    /\ Live(x) \subseteq DOMAIN st

\* C08: raw trees read as specified.
RawOk(x) ==
    /\ E.res = x.res
    /\ E.op = "rget" => E.out = x.out
    /\ "root" \in DOMAIN E => E.root = HRoot(x.hs[IF "to" \in DOMAIN E THEN E.to ELSE E.h])
    /\ "probe" \in DOMAIN E =>
          \A i \in DOMAIN E.probe :
              LET v == At(x.db, HRoot(x.hs[E.h]), E.probe[i][1])
              IN E.probe[i][2] = IF v = <<>> THEN "none" ELSE v[1]

\* C10: what the store knows.
Knows(x) ==
    "gets" \in DOMAIN E =>
        \A i \in DOMAIN E.gets :
            LET k == E.gets[i][1]
                v == E.gets[i][2]
            IN /\ Kids(x.db, k) # <<>> => v = Kids(x.db, k)
               /\ v # <<>> => k \in DOMAIN NewFacts(x) /\ v = NewFacts(x)[k]

Judge(x) ==
    LET st == IF HasStore THEN Logged(E.store) ELSE << >> IN
    Sane /\
    CASE Prop = "C06" -> HasStore => Protected(x, st) /\ Harmless(st)
      [] Prop = "C07" -> HasStore => Exact(x, st)
      [] Prop = "C08" -> RawOk(x)
      [] Prop = "C10" -> Knows(x)

Done == l > Len(T)
Conforms == Done \/ Judge(Next0)

Step ==
    LET x == Next0 IN
    /\ l' = l + 1
    /\ ws' = [db |-> x.db, hs |-> x.hs]
    /\ seen' = IF HasStore /\ Prop = "C06" THEN Logged(E.store) ELSE seen
    /\ facts' = IF Prop = "C10" THEN NewFacts(x) ELSE facts
    /\ UNCHANGED tid

Next == IF Done THEN UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars

Alias == [trace |-> tid, event |-> l,
          logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson([res |-> Next0.res, out |-> Next0.out, live |-> Live(Next0),
                           garbage |-> Garbage(Next0, W),
                           roots |-> [i \in DOMAIN Next0.hs |-> HRoot(Next0.hs[i])]])]
=============================================================================
