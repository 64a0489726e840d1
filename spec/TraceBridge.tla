----------------------------- MODULE TraceBridge -----------------------------
(* Encoded sequences opened as containers, containers decoded: as recorded  *)
(* from the code, several sharing one store.                                *)
EXTENDS Ssz, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, hs      \* hs: handle -> [t, v]
vars == <<tid, l, hs>>
Tr1 == Traces[tid]
E == Tr1[l]
Done == l > Len(Tr1)
Mode == Tr1[1].mode
Init == tid \in 1..Len(Traces) /\ l = 2 /\ hs = << >>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Typed(h) == IF h.t.k \in {"arr", "carr"} THEN [h.t EXCEPT !.n = Len(h.v)] ELSE h.t
RootOf(h) == Enc(Mode, Typed(h), h.v).root
Plain(h) == h.t.k \in {"arr", "list"}
Full(h) == h.t.max # <<>> /\ ~LessBig(Len(h.v), h.t.max[1])

\* Result, value and handle after the event.
Expected ==
    IF E.op \in {"open", "fill"} THEN [res |-> "ok", out |-> <<>>, h |-> [t |-> E.t, v |-> E.v]]
    ELSE LET h == hs[E.h]
             n == Len(h.v)
             r(res, out, v) == [res |-> res, out |-> out, h |-> [h EXCEPT !.v = v]]
             in == "i" \in DOMAIN E /\ E.i < n
         IN CASE E.op = "push" -> IF Full(h) THEN r("overflow", <<>>, h.v) ELSE r("ok", <<>>, Append(h.v, E.v))
              [] E.op = "set"  -> IF in THEN r("ok", <<>>, [i \in 1..n |-> IF i = E.i + 1 THEN E.v ELSE h.v[i]]) ELSE r("overflow", <<>>, h.v)
              [] E.op = "get"  -> IF in THEN r("ok", <<h.v[E.i + 1]>>, h.v) ELSE r("overflow", <<>>, h.v)
              [] E.op = "pop"  -> IF n = 0 THEN r("ok", <<>>, h.v)
                                  ELSE r("ok", <<IF Plain(h) THEN Enc(Mode, h.t.t, h.v[n]).root ELSE h.v[n]>>, SubSeq(h.v, 1, n - 1))
              [] E.op = "dec"  -> r("ok", h.v, h.v)
              [] E.op = "drop" -> r("ok", <<>>, h.v)

Conforms ==
    Done \/ LET x == Expected IN
        /\ E.res = x.res
        /\ "root" \in DOMAIN E => E.root = RootOf(x.h)
        /\ "out" \in DOMAIN E => Same(E.out, x.out)
        /\ "len" \in DOMAIN E => E.len = Len(x.h.v)
Next == IF Done THEN UNCHANGED vars
        ELSE l' = l + 1 /\ UNCHANGED tid /\ hs' = Put(hs, E.h, Expected.h)
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson([x |-> Expected, root |-> RootOf(Expected.h)])]
=============================================================================
