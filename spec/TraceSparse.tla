----------------------------- MODULE TraceSparse -----------------------------
(* Containers on incomplete trees, as recorded from the code.               *)
EXTENDS Sparse, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, c, st, free     \* free: nothing is claimed any more
vars == <<tid, l, c, st, free>>
Tr1 == Traces[tid]
E == Tr1[l]
Done == l > Len(Tr1)
Mode == Tr1[1].mode
Nothing == C!Container("vec", 0, <<>>, <<>>)
Init == tid \in 1..Len(Traces) /\ l = 2 /\ c = Nothing /\ st = {} /\ free = FALSE

Set_(s) == {s[i] : i \in 1..Len(s)}
Had == C!Container(E.kind, E.ew, E.ml, E.es)
Expected ==
    IF E.op = "have"
    THEN [judged |-> TRUE, res |-> IF OpensBy(E.how, Had, Mode, Set_(E.keys)) THEN "ok" ELSE "corrupted", out |-> "", c |-> Had, st |-> Set_(E.keys)]
    ELSE Outcome(Mode, c, st, E)

Conforms ==
    Done \/ free \/ LET x == Expected IN
        IF ~x.judged THEN TRUE
        ELSE /\ E.res = x.res
             /\ E.root = RootOf(Mode, x.c)
             /\ E.op # "have" => E.out = x.out /\ E.len = Len(x.c.es)
Next == IF Done THEN UNCHANGED vars
        ELSE /\ l' = l + 1 /\ UNCHANGED tid
             /\ IF free THEN UNCHANGED <<c, st, free>>
                ELSE LET x == Expected IN c' = x.c /\ st' = x.st /\ free' = ~x.judged
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done \/ free THEN "" ELSE LET x == Expected IN ToJson([res |-> x.res, out |-> x.out, root |-> RootOf(Mode, x.c), len |-> Len(x.c.es)])]
=============================================================================
