----------------------------- MODULE TraceProof -----------------------------
(* Recordings of the real code: histories run directly, on a proving        *)
(* backend, and again from the proof.                                       *)
EXTENDS Proving, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, ws,
          w0,      \* the world when the recording began
          on,      \* recording
          ro,      \* nothing but reads so far
          rd       \* nodes on the paths that were read
vars == <<tid, l, ws, w0, on, ro, rd>>

T == Traces[tid]
E == T[l]
Mode == T[1].mode
W == T[1].w
Done == l > Len(T)
Mark == E.op \in {"record", "proof"}

Init == tid \in 1..Len(Traces) /\ l = 2 /\ ws = NewWorld(W) /\ w0 = NewWorld(W) /\ on = FALSE /\ ro = TRUE /\ rd = {}

X == WApply(ws, Mode, W, E)

\* C11: run again from the proof, everything as specified.
Again(x) == on => [res |-> E.r.res, out |-> E.r.out, root |-> E.r.root] = Outcome(x, E)
\* C12: the proving backend changes nothing,
Same == on => E.p = E.d
\* its proof holds nodes that were there, and shows nothing else.
Fair ==
    /\ \A i \in DOMAIN E.ps : LET p == E.ps[i] IN Kids(w0.db, p[1]) = <<p[2], p[3]>>
    /\ ro => \A i \in DOMAIN E.ps : E.ps[i][1] \in rd
    /\ E.direct = E.proved
    /\ \A i \in DOMAIN E.partial :
          LET q == E.partial[i]
              v == At(w0.db, q[1], q[2])
          IN q[3] \in {"none", "error"} \/ (v # <<>> /\ q[3] = v[1])
    /\ \A i \in DOMAIN E.elems :
          LET q == E.elems[i]
              h == w0.hs[q[1]]
          IN q[3] = "error" \/ q[3] = IApply(w0.db, Mode, W, FALSE, h.kind, h.hd, [op |-> "get", i |-> q[2]]).out

Judge ==
    CASE E.op = "record" -> TRUE
      [] E.op = "proof" -> Prop = "C12" => Fair
      [] OTHER -> CASE Prop = "C11" -> Again(X)
                    [] Prop = "C12" -> Same
Conforms == Done \/ Judge

Step ==
    /\ l' = l + 1
    /\ UNCHANGED tid
    /\ IF E.op = "record" THEN on' = TRUE /\ w0' = ws /\ ro' = TRUE /\ rd' = {} /\ UNCHANGED ws
       ELSE IF E.op = "proof" THEN on' = FALSE /\ UNCHANGED <<ws, w0, ro, rd>>
       ELSE /\ ws' = [db |-> X.db, hs |-> X.hs]
            /\ ro' = (ro /\ ReadOnly(E))
            /\ rd' = IF on THEN rd \cup Reads(ws, W, E) ELSE rd
            /\ UNCHANGED <<w0, on>>
Next == IF Done THEN UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars

Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done \/ Mark THEN "" ELSE ToJson(Outcome(X, E))]
=============================================================================
