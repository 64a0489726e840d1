---------------------------- MODULE TraceCompact ----------------------------
(* Compact and plain proofs of larger trees, as the real code converted     *)
(* them.                                                                    *)
EXTENDS Compact, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
E == T[l]
Done == l > Len(T)
Init == tid \in 1..Len(Traces) /\ l = 2

Triples(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in DOMAIN s}
Want ==
    CASE E.op = "compact" ->
            LET ps == Triples(E.ps)
                c == Compacted(ps, E.root)
            IN [tree |-> c, n |-> Count(c), croot |-> E.root, back |-> ReachedFrom(ps, E.root), broot |-> E.root,
                enc |-> E.root, nodes |-> Entries(c)]
      [] E.op = "plain" ->
            LET c == Plain(E.leaf, E.sibs, E.path)
            IN [tree |-> c, croot |-> IF c = <<>> THEN "" ELSE RootOf(c[1]),
                n |-> IF c = <<>> THEN 0 ELSE Len(E.path) + 1]
Conforms ==
    Done \/
    (E.res = "ok" /\
     CASE E.op = "compact" ->
            /\ E.tree = Want.tree /\ E.n = Want.n /\ E.croot = Want.croot
            /\ Triples(E.back) = Want.back /\ E.broot = Want.broot
            /\ E.reads /\ E.enc = Want.enc /\ Triples(E.nodes) = Want.nodes
       [] E.op = "plain" -> E.tree = Want.tree /\ E.croot = Want.croot /\ E.n = Want.n)
Next == IF Done THEN UNCHANGED vars ELSE l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson(Want)]
=============================================================================
