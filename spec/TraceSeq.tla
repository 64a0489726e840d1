------------------------------ MODULE TraceSeq ------------------------------
(* Histories recorded from the real containers, checked against Containers. *)
(* Each trace is a sequence of events; the first fixes the empty mode and   *)
(* the width of the tree values.  State: the open handles and what they     *)
(* must contain.  Conforms is violated at the first event the specification *)
(* does not allow.                                                          *)
EXTENDS Containers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop      \* the property to judge

VARIABLES tid, l, hs, last
vars == <<tid, l, hs, last>>

T == Traces[tid]
E == T[l]
Mode == T[1].mode
W == T[1].w

Init == /\ tid \in 1..Len(Traces)
        /\ l = 2
        /\ hs = << >>          \* handle -> container
        /\ last = << >>        \* handle -> root and length as last reported

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Reopens == {"reopen", "fork"}
NoEffect == {"dump", "missing", "shape", "reopen", "fork", "drop"}

\* What the event must do to the container it is about.
Expected ==
    IF E.op = "create"
    THEN LET r == CreateRes(W, E.kind, E.ew, E.ml, E.n)
         IN [res |-> r, out |-> "", c |-> IF r = "ok" THEN Created(W, E.kind, E.ew, E.ml, E.n) ELSE Container(E.kind, E.ew, E.ml, <<>>)]
    ELSE IF E.op = "fill"      \* many pushes, which fit
    THEN Result("ok", "", [hs[E.h] EXCEPT !.es = @ \o E.vs])
    ELSE IF E.op = "drain"     \* many pops, of what is there
    THEN LET es == hs[E.h].es IN
         Result("ok", [i \in 1..E.n |-> es[Len(es) + 1 - i]], [hs[E.h] EXCEPT !.es = SubSeq(es, 1, Len(es) - E.n)])
    ELSE IF E.op = "missing" THEN Result("corrupted", "", hs[E.h])
    ELSE IF E.op = "shape"
         THEN Result(IF hs[E.h].kind = "vec" THEN "ok" ELSE "none", "", hs[E.h])
    ELSE Apply(hs[E.h], E)

Open == ~(E.op = "create" /\ E.res # "ok") /\ E.op # "drop" /\ "root" \in DOMAIN E

\* --- the judgements, by property
ResOk(x) == E.res = x.res
OutOk(x) == /\ E.op = "drain" => E.outs = x.out
            /\ E.op \in {"get", "pop"} => E.out = x.out
LenOk(x) == Open => E.len = Len(x.c.es)
DumpOk(x) == E.op = "dump" => E.elems = x.c.es /\ E.over = "overflow"
RootOk(x) == Open => E.root = Root(Mode, W, x.c)
\* A failed or reading operation leaves root and length alone.
SameOk(x) == (Open /\ E.op # "create" /\ (E.res # "ok" \/ E.op \notin {"push", "pop", "set", "fill", "drain"})) =>
                <<E.root, E.len>> = last[E.h]
ShapeOk(x) ==
    (E.op = "shape" /\ x.c.kind = "vec") =>
        /\ E.ml = x.c.ml
        /\ E.depth = Depth(W, x.c)
        /\ E.cap = IF x.c.ml # <<>> THEN x.c.ml[1] ELSE BigOf(Pow2(CeilLog2(Len(x.c.es))))

Array(x) == ResOk(x) /\ OutOk(x) /\ LenOk(x) /\ DumpOk(x) /\ SameOk(x)

Judge(x) ==
    CASE Prop = "C01" -> E.res \notin {"panic", "hang"} /\ RootOk(x)
      [] Prop \in {"C02", "C03"} -> Array(x)
      [] Prop = "C04" -> Array(x) /\ ShapeOk(x) /\ RootOk(x)
      [] Prop = "C05" -> Array(x) /\ ShapeOk(x) /\ RootOk(x)

Done == l > Len(T)
Conforms == Done \/ Judge(Expected)

Step ==
    LET x == Expected IN
    /\ l' = l + 1
    /\ UNCHANGED tid
    /\ hs' = IF E.op = "create" /\ E.res # "ok" THEN hs
             ELSE IF E.op = "drop" THEN Del(hs, E.h)
             ELSE IF E.op = "fork" THEN Put(hs, E.to, x.c)
             ELSE Put(hs, E.h, x.c)
    /\ last' = IF E.op = "create" /\ E.res # "ok" THEN last
               ELSE IF E.op = "drop" THEN Del(last, E.h)
               ELSE IF E.op = "fork" THEN Put(Put(last, E.h, <<E.root, E.len>>), E.to, <<E.root, E.len>>)
               ELSE IF "root" \in DOMAIN E THEN Put(last, E.h, <<E.root, E.len>>)
               ELSE last

Next == IF Done THEN UNCHANGED vars ELSE Step

Spec == Init /\ [][Next]_vars

\* What a counterexample shows.
Alias == [trace |-> tid, event |-> l,
          logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson([x |-> Expected, root |-> Root(Mode, W, Expected.c)])]
=============================================================================
