------------------------------ MODULE TraceFault ------------------------------
(* Histories of several handles over a backend whose calls fail now and     *)
(* then, recorded with the store after each step.  The specified world goes *)
(* on from the recorded store, so that only what failing operations may     *)
(* leave is free: everything owned has to be there.                         *)
EXTENDS Fault, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, ws
vars == <<tid, l, ws>>
T == Traces[tid]
E == T[l]
Mode == T[1].mode
W == T[1].w
Done == l > Len(T)
Logged(st) ==
    LET keys == {st[i][1] : i \in DOMAIN st}
        at == [k \in keys |-> CHOOSE i \in DOMAIN st : st[i][1] = k]
    IN [k \in keys |-> [k |-> st[at[k]][2], c |-> st[at[k]][3]]]

Init == tid \in 1..Len(Traces) /\ l = 2 /\ ws = NewWorld(W)

\* The handles there are after the operation.
X == WApply(ws, Mode, W, E)
After == IF E.fault THEN IF E.op = "drop" THEN Del(ws.hs, E.h) ELSE ws.hs ELSE X.hs
St == Logged(E.store)

\* Owned trees as the specification has them, in the recorded store.
Whole ==
    LET y    == IF E.fault THEN ws ELSE [db |-> X.db, hs |-> X.hs]
        live == Live([y EXCEPT !.hs = After])
    IN /\ \A k \in live : k \in DOMAIN St /\ (y.db[k].k # <<>> => St[k].k = y.db[k].k)
       /\ Enough([db |-> St, hs |-> After])
Handles == {<<i, HRoot(After[i]), HLen(After[i])>> : i \in DOMAIN After}

Conforms ==
    Done \/ /\ IF E.fault THEN E.res = "backend Fault" ELSE E.res = X.res /\ (E.res = "ok" => E.out = X.out)
            /\ Handles = {<<E.hs[i][1], E.hs[i][2], E.hs[i][3]>> : i \in DOMAIN E.hs}
            /\ Whole
Next == IF Done THEN UNCHANGED vars ELSE l' = l + 1 /\ UNCHANGED tid /\ ws' = [db |-> St, hs |-> After]
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson([res |-> IF E.fault THEN "backend Fault" ELSE X.res, out |-> X.out, handles |-> Handles])]
=============================================================================
