----------------------------- MODULE TraceIndex -----------------------------
(* Histories of an index recorded from the real code: each operation starts *)
(* from the index the previous one gave.                                    *)
EXTENDS Paths, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, p
vars == <<tid, l, p>>

T == Traces[tid]
E == T[l]
Done == l > Len(T)

Init == tid \in 1..Len(Traces) /\ l = 2 /\ p = Root

Question == E.op \in {"below", "above", "select", "same", "route"}
Want ==
    CASE E.op = "below" -> Below(p, E.q)
      [] E.op = "above" -> Below(E.q, p)
      [] E.op = "same" -> p = E.q
      [] E.op = "select" -> Selection(p, E.k)
      [] E.op = "route" -> <<p>>
      [] OTHER -> Apply(p, E)
After == IF Question \/ Apply(p, E) = <<>> THEN p ELSE Apply(p, E)[1]

Conforms == Done \/ (E.res = "ok" /\ E.r = Want)
Next == IF Done THEN UNCHANGED vars ELSE l' = l + 1 /\ p' = After /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars

Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson([r |-> Want])]
=============================================================================
