------------------------------ MODULE TraceWire ------------------------------
(* Random values written to the wire, damaged there, and read back, as the  *)
(* code did it.                                                             *)
EXTENDS Wire, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
E == T[l]
Done == l > Len(T)
Init == tid \in 1..Len(Traces) /\ l = 2

Want ==
    CASE E.op = "out"   -> [bytes |-> BytesHex(Enc(E.t, E.v)), doc |-> ToDoc(E.t, E.v)]
      [] E.op = "bytes" -> LET x == Dec(E.t, HexBytes(E.bytes))
                           IN [out |-> IF Good(x) THEN <<x[1]>> ELSE <<>>, left |-> IF Good(x) THEN Len(x[2]) ELSE 0]
      [] E.op = "json"  -> [out |-> OfDoc(E.t, E.doc)]
\* Documents as the specification writes them.
RECURSIVE Norm(_)
Norm(d) == Doc(d.k, CASE d.k = "arr" -> [i \in DOMAIN d.v |-> Norm(d.v[i])]
                      [] d.k = "obj" -> [i \in DOMAIN d.v |-> <<d.v[i][1], Norm(d.v[i][2])>>]
                      [] OTHER -> d.v)
Same(x, y) == ToJson(x) = ToJson(y)
Conforms ==
    Done \/
    (/\ E.res = "ok"
     /\ CASE E.op = "out"   -> (E.wired => E.bytes = Want.bytes) /\ Same(Norm(E.doc), Norm(Want.doc))
          [] E.op = "bytes" -> Same(E.out, Want.out) /\ E.left = Want.left
          [] E.op = "json"  -> Same(E.out, Want.out))
Next == IF Done THEN UNCHANGED vars ELSE l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE ToJson(Want)]
=============================================================================
