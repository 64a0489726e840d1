---------------------------- MODULE TraceBackend ----------------------------
(* Histories of several handles run through every wrapper: each result as   *)
(* specified, whatever the wrapper, and the same store in the end.          *)
EXTENDS Proving, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, ws
vars == <<tid, l, ws>>
T == Traces[tid]
E == T[l]
Mode == T[1].mode
W == T[1].w
Done == l > Len(T)
Init == tid \in 1..Len(Traces) /\ l = 2 /\ ws = NewWorld(W)
X == WApply(ws, Mode, W, E)
Conforms ==
    Done \/ IF E.op = "stores" THEN \A i \in DOMAIN E.st : E.st[i] = E.st[1]
            ELSE \A i \in DOMAIN E.rs : E.rs[i] = Outcome(X, E)
Next == IF Done THEN UNCHANGED vars
        ELSE l' = l + 1 /\ UNCHANGED tid /\ ws' = IF E.op = "stores" THEN ws ELSE [db |-> X.db, hs |-> X.hs]
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE IF E.op = "stores" THEN "equal" ELSE ToJson(Outcome(X, E))]
=============================================================================
