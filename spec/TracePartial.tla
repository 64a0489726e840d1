----------------------------- MODULE TracePartial -----------------------------
(* Histories of partial views as the code ran them.                          *)
EXTENDS Partial, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Prop

VARIABLES tid, l, st, kept, outs
vars == <<tid, l, st, kept, outs>>
Tr1 == Traces[tid]
E == Tr1[l]
T == Tr1[1].t
Mode == Tr1[1].mode
Done == l > Len(Tr1)
Init == tid \in 1..Len(Traces) /\ l = 2 /\ st = View(Tr1[1].v, 2) /\ kept = <<>> /\ outs = <<>>
X == PApply(st, T, E)
\* The first flush that failed.  How far it came differs from run to run, as
\* elements are written in any order, and so does what the proof has of it.
Stopped == LET f == {i \in DOMAIN outs : outs[i].flush /\ outs[i].res # "ok"}
           IN IF f = {} THEN Len(outs) + 1 ELSE CHOOSE i \in f : \A j \in f : i <= j
Agree(got, o) == got.res = o.res /\ Same(got.out, o.out) /\ got.root = o.root
Conforms ==
    Done \/ CASE E.op = "keep" -> TRUE
              [] E.op = "look" ->     \* everything there is, decoded
                    /\ IF st.tried = {} THEN Same(E.now, <<st.val>>)
                       ELSE E.now # <<>> /\ Mixed(T, E.now[1], st.val, st.tried)
                    /\ \A i \in DOMAIN E.kept : Same(E.kept[i], <<kept[i]>>)
              [] E.op = "proof" ->    \* everything again, recorded or from the proof
                    /\ E.res = "ok"
                    /\ Len(E.outs) = Len(outs)
                    /\ \A i \in DOMAIN outs :
                          IF Prop = "C11" /\ i >= Stopped THEN i = Stopped => E.outs[i].res \in {"overflow", "corrupted"}
                          ELSE Agree(E.outs[i], outs[i])
                    /\ Prop = "C12" => E.same /\ E.odd = <<>> /\ \A i \in DOMAIN E.part : E.part[i].res # "panic" /\ (E.part[i].res = "ok" => Agree(E.part[i], outs[i]))
              [] OTHER ->
                    /\ E.res = X.res
                    /\ Same(E.out, X.out)
                    /\ (E.op = "flush" /\ X.res = "ok") => E.root = Enc(Mode, T, X.st.val).root
Next == IF Done THEN UNCHANGED vars
        ELSE /\ l' = l + 1 /\ UNCHANGED tid
             /\ st' = IF E.op \in {"keep", "look", "proof"} THEN st ELSE X.st
             /\ outs' = IF E.op \in {"keep", "look", "proof"} THEN outs
                        ELSE Append(outs, [flush |-> E.op = "flush", res |-> X.res, out |-> X.out, root |-> IF E.op = "flush" /\ X.res = "ok" THEN Enc(Mode, T, X.st.val).root ELSE ""])
             /\ kept' = IF E.op = "keep" THEN Append(kept, st.val) ELSE kept
Spec == Init /\ [][Next]_vars
Alias == [trace |-> tid, event |-> l, logged |-> IF Done THEN "" ELSE ToJson(E),
          expected |-> IF Done THEN "" ELSE IF E.op = "look" THEN ToJson([now |-> st.val, kept |-> kept])
                       ELSE IF E.op = "proof" THEN ToJson(outs)
                       ELSE IF E.op = "keep" THEN "" ELSE ToJson([res |-> X.res, out |-> X.out, val |-> X.st.val, root |-> IF E.op = "flush" THEN Enc(Mode, T, X.st.val).root ELSE ""])]
===============================================================================
