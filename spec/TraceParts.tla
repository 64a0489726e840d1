----------------------------- MODULE TraceParts -----------------------------
(* Views of incomplete or damaged trees, as recorded from the code.         *)
EXTENDS Partial, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, db, vw
vars == <<tid, l, db, vw>>
Tr1 == Traces[tid]
E == Tr1[l]
T == Tr1[1].t
Done == l > Len(Tr1)
Node(n) == n[1] :> <<n[2], n[3]>>
Init == tid \in 1..Len(Traces) /\ l = 2 /\ db = StoreOf({Tr1[1].nodes[i] : i \in 1..Len(Tr1[1].nodes)}) /\ vw = Looking
X == LooksAt(db, T, Tr1[1].root, vw, E)
Conforms ==
    Done \/ IF E.op = "left" THEN E.same
            ELSE IF X.res = "free" THEN E.res \in {"ok", "corrupted"}
            ELSE E.res = X.res /\ Same(E.out, X.out)
Next == IF Done THEN UNCHANGED vars
        ELSE /\ l' = l + 1 /\ UNCHANGED tid
             /\ vw' = IF E.op = "left" THEN vw ELSE X.v
             /\ db' = IF E.op = "supply" THEN db @@ Node(E.n) ELSE db
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE IF E.op = "left" THEN "" ELSE ToJson([res |-> X.res, out |-> X.out])]
=============================================================================
