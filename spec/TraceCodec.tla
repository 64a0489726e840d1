----------------------------- MODULE TraceCodec -----------------------------
(* Random values of the catalogue's types encoded into and decoded from     *)
(* shared stores, and decoded from damaged trees, as the code did it.       *)
EXTENDS Ssz, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l
vars == <<tid, l>>
Tr1 == Traces[tid]
E == Tr1[l]
Done == l > Len(Tr1)
Init == tid \in 1..Len(Traces) /\ l = 2
Mode == Tr1[1].mode

Triples(q) == {<<q[i][1], q[i][2], q[i][3]>> : i \in DOMAIN q}

\* What was encoded before under the handle h of the trace.
Written(h) == Tr1[CHOOSE k \in 2..(l - 1) : Tr1[k].op = "enc" /\ Tr1[k].h = h]

Ok == E.res = "ok"
Bad == E.res = "corrupted"
Encoded ==
    LET r == Enc(Mode, E.t, E.v).root
    IN /\ Ok
       /\ Prop \in {"C14", "C16"} => E.root = r /\ \A i \in DOMAIN E.alts : E.alts[i] = r
       /\ Prop = "C16" =>
            LET bare == Dec(<< >>, E.t, r)
            IN /\ \A i \in DOMAIN E.all : E.all[i].root = r /\ E.all[i].res = "ok" /\ Same(E.all[i].v, E.v) /\ E.all[i].left
               /\ \A i \in DOMAIN E.no :
                     /\ E.no[i].root = r
                     /\ IF bare = <<>> THEN E.no[i].res = IF i = 1 THEN "backend Noop" ELSE "backend Stripped"
                        ELSE E.no[i].res = "ok" /\ Same(E.no[i].v, E.v)
Decoded == Ok /\ Same(E.v, Written(E.h).v) /\ E.same
Damaged ==
    LET st == AsStore(Triples(E.nodes))
        x  == Dec(st, E.t, E.root)
    IN IF x = <<>> THEN Bad
       ELSE IF Canonical(Mode, st, E.t, E.root) THEN Ok /\ Same(E.v, x[1])
       ELSE Ok \/ Bad
\* Values read, and others written, while recording or from the proof.
Proved ==
    LET want(i) == LET d == E.did[i] IN IF d.new = <<>> THEN Written(d.h).v ELSE d.new[1].v
        of(ks) == UNION {Enc(Mode, Tr1[k].t, Tr1[k].v).nodes : k \in ks}
        encs == {k \in 2..(l - 1) : Tr1[k].op = "enc"}
        \* Read-only, nothing but the trees read; else what was there, of
        \* which encoding leaves zero trees behind, too.
        mine == IF \A i \in DOMAIN E.did : E.did[i].new = <<>>
                THEN of({k \in encs : \E i \in DOMAIN E.did : Tr1[k].h = E.did[i].h})
                ELSE of(encs) \cup Empties[65].nodes
    IN /\ Ok
       /\ \A i \in DOMAIN E.did :
             /\ E.outs[i].res = "ok" /\ Same(E.outs[i].v, want(i))
             /\ E.did[i].new # <<>> => E.outs[i].root = Enc(Mode, E.did[i].new[1].t, E.did[i].new[1].v).root
       /\ Prop = "C12" =>
             /\ E.same
             /\ Triples(E.proof) \subseteq mine
             /\ \A k \in DOMAIN E.parts : Same(E.parts[k].v, want(E.parts[k].i))
Conforms ==
    Done \/ CASE "fault" \in DOMAIN E /\ E.fault -> E.res = "backend Fault"
              [] E.op = "enc" -> Encoded
              [] E.op = "dec" -> Decoded
              [] E.op = "bad" -> Damaged
              [] E.op = "prove" -> Proved
Next == IF Done THEN UNCHANGED vars ELSE l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN ""
                       ELSE IF E.op = "enc" THEN Enc(Mode, E.t, E.v).root
                       ELSE IF E.op = "dec" THEN ToJson(Written(E.h).v)
                       ELSE IF E.op = "prove" THEN ToJson([i \in DOMAIN E.did |-> IF E.did[i].new = <<>> THEN Written(E.did[i].h).v ELSE Enc(Mode, E.did[i].new[1].t, E.did[i].new[1].v).root])
                       ELSE ToJson(Dec(AsStore(Triples(E.nodes)), E.t, E.root))]
=============================================================================
