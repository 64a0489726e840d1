------------------------------ MODULE MCBridge ------------------------------
(* A sequence is an encoded value and a container at the same time: every   *)
(* small history of one, starting from nothing.  Each step is printed with  *)
(* the contents before and after, to be carried out in the real code on the *)
(* encoded value opened as a container, and on a container which is decoded.*)
(* The element types come from the harness (IOEnv.TYPES).                   *)
EXTENDS Ssz, TLC, IOUtils

C == INSTANCE Containers

CONSTANTS MaxLen, PMaxLen, Limits, Modes

Fams == ndJsonDeserialize(IOEnv.TYPES)
FewLimits == {-1, 2}
AllLimits == {-1, 1, 2, 3, 4, 5}

VARIABLES fam, list, max, mode, es
vars == <<fam, list, max, mode, es>>
F == Fams[fam]
Bound == IF F.packed THEN PMaxLen * (IF F.t.n < 8 THEN 2 ELSE 1) ELSE MaxLen
Ml == IF max = -1 THEN <<>> ELSE <<BigOf(max)>>

T(n) ==
    IF list THEN [k |-> IF F.packed THEN "clist" ELSE "list", t |-> F.t, max |-> Ml]
    ELSE [k |-> IF F.packed THEN "carr" ELSE "arr", t |-> F.t, max |-> Ml, n |-> n]
RootOf(q) == Enc(mode, T(Len(q)), q).root

\* Two values of a type: a plain one and one with everything in it.
RECURSIVE Some(_, _)
Some(t, s) ==
    CASE t.k \in {"u", "hash"} -> IF s = 0 THEN Zeros(2 * t.n) ELSE BytesHex([i \in 1..t.n |-> (i * 7 + s) % 256])
      [] t.k = "bool" -> IF s = 0 THEN "00" ELSE "01"
      [] t.k \in {"unit", "ign"} -> <<>>
      [] t.k = "opt"  -> IF s = 0 THEN <<>> ELSE <<Some(t.t, s)>>
      [] t.k = "prod" -> [i \in 1..Len(t.ts) |-> Some(t.ts[i], s)]
      [] t.k = "sum"  -> LET i == IF s = 0 THEN 0 ELSE 2 IN [i |-> i, f |-> [j \in 1..Len(t.vs[i + 1].ts) |-> Some(t.vs[i + 1].ts[j], s)]]
      [] t.k \in {"arr", "carr"} -> [i \in 1..t.n |-> Some(t.t, s)]
      [] t.k \in {"list", "clist"} -> [i \in 1..(2 * s) |-> Some(t.t, s)]
Vals == {<<Some(F.t, 0)>>, <<Some(F.t, 1)>>}

Init == fam \in 1..Len(Fams) /\ list \in BOOLEAN /\ max \in Limits /\ mode \in Modes /\ es = <<>>

Tell(op, res, out, q) ==
    Emit("EDGE", ToJson([fam |-> F.name, list |-> list, max |-> max, mode |-> mode, from |-> es, to |-> q,
                         fromroot |-> RootOf(es), root |-> RootOf(q), op |-> op, out |-> [res |-> res, out |-> out]]))
Full == max # -1 /\ Len(es) >= max
Push == \E v \in Vals :
    LET q == IF Full THEN es ELSE Append(es, v[1])
    IN /\ Len(q) <= Bound
       /\ es' = q
       /\ Tell([op |-> "push", v |-> v[1]], IF Full THEN "overflow" ELSE "ok", <<>>, q)
Pop ==
    LET q == IF es = <<>> THEN es ELSE SubSeq(es, 1, Len(es) - 1)
        x == IF es = <<>> THEN <<>> ELSE IF F.packed THEN <<es[Len(es)]>> ELSE <<Enc(mode, F.t, es[Len(es)]).root>>
    IN /\ es' = q
       /\ Tell([op |-> "pop"], "ok", x, q)
Set == \E v \in Vals, i \in 0..Len(es) :
    LET q == IF i = Len(es) THEN es ELSE [es EXCEPT ![i + 1] = v[1]]
    IN /\ es' = q
       /\ Tell([op |-> "set", i |-> i, v |-> v[1]], IF i = Len(es) THEN "overflow" ELSE "ok", <<>>, q)
Get == \E i \in 0..Len(es) :
    /\ es' = es
    /\ Tell([op |-> "get", i |-> i], IF i = Len(es) THEN "overflow" ELSE "ok", IF i = Len(es) THEN <<>> ELSE <<es[i + 1]>>, es)
Next == (Push \/ Pop \/ Set \/ Get) /\ UNCHANGED <<fam, list, max, mode>>
Spec == Init /\ [][Next]_vars
View == <<fam, list, max, mode, ToJson(es)>>

-----------------------------------------------------------------------------
\* The encoding of the elements is the tree of the container holding them.
AsContainer ==
    LET kind == IF F.packed THEN (IF list THEN "plist" ELSE "pvec") ELSE (IF list THEN "list" ELSE "vec")
        held == IF F.packed THEN es ELSE [i \in 1..Len(es) |-> Enc(mode, F.t, es[i]).root]
    IN RootOf(es) = C!Root(mode, W, C!Container(kind, IF F.packed THEN F.t.n ELSE 0, Ml, held))
\* Decoding gives the elements back.
Decodes == Same(Dec(AsStore(Enc(mode, T(Len(es)), es).nodes), T(Len(es)), RootOf(es)), <<es>>)
=============================================================================
