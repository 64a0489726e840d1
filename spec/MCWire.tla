------------------------------- MODULE MCWire -------------------------------
(* Values of the types the harness describes, some beyond their limit, on   *)
(* the wire; then one thing on the wire changes.  Also all short byte       *)
(* strings over a few bytes.                                                *)
EXTENDS Wire, FiniteSets, TLC, Json, IOUtils

CONSTANTS Seeds,     \* values per type
          Short,     \* length of the arbitrary byte strings
          Depths,    \* nesting of what is all nesting
          Twice      \* TRUE: two things change

Types == ndJsonDeserialize(IOEnv.TYPES)

RECURSIVE Val(_, _)
Val(t, s) ==
    CASE t.k \in {"u", "hash"} -> BytesHex([i \in 1..t.n |-> IF s = 0 THEN 0 ELSE IF s = 1 THEN 255 ELSE IF s = 2 THEN (IF i = t.n THEN 128 ELSE 0)
                                                              ELSE (s * 37 + i * 11) % 256])
      [] t.k = "bool" -> IF s % 2 = 0 THEN "00" ELSE "01"
      [] t.k = "prod" -> [i \in 1..Len(t.ts) |-> Val(t.ts[i], s + i - 1)]
      [] t.k = "list" ->
            LET m == IF t.max # <<>> /\ Fits(t.max[1]) /\ ToInt(t.max[1]) < 100 THEN ToInt(t.max[1]) ELSE 3
                lens == <<0, m, 1, m + 1, 2, IF m > 0 THEN m - 1 ELSE 0, m + 2, 63, 64, 65>>
            IN [i \in 1..lens[1 + (s % (IF m > 60 THEN 10 ELSE 7))] |-> Val(t.t, s + i - 1)]
      [] t.k = "cv" ->
            CASE s % 4 = 0 -> <<Val(t.t, s)>>
              [] s % 4 = 1 -> << <<Val(t.t, s)>>, <<Val(t.t, s + 1)>> >>
              [] s % 4 = 2 -> << Val(t, s \div 4 + 1), <<Val(t.t, s)>> >>
              [] OTHER     -> << Val(t, 1), Val(t, s \div 4) >>

\* Does a value keep to all its limits?
RECURSIVE Kept(_, _)
Kept(t, v) ==
    CASE t.k = "prod" -> \A i \in DOMAIN v : Kept(t.ts[i], v[i])
      [] t.k = "list" -> Within(t, Len(v)) /\ \A i \in DOMAIN v : Kept(t.t, v[i])
      [] t.k = "cv"   -> \A i \in DOMAIN v : IF Len(v) = 1 THEN Kept(t.t, v[i]) ELSE Kept(t, v[i])
      [] OTHER        -> TRUE

VARIABLES ty,    \* type
          s,     \* value, or -1 (bytes alone), or -2 (nesting)
          b,     \* bytes; <<n, k>> for nesting
          d,     \* << >> or <<document>>
          n      \* changes
vars == <<ty, s, b, d, n>>
T == Types[ty].t
V == Val(T, s)

Init == /\ ty \in 1..Len(Types) /\ n = 0
        /\ \/ s = -1 /\ b = <<>> /\ d = <<>> /\ Types[ty].wired
           \/ s = -2 /\ T.k = "cv" /\ T.t.k \in {"u", "hash"} /\ d = <<>>
              /\ b \in {<<x, y>> : x \in {0, 1, 2, 5}, y \in 0..8} \cup {<<64, 65>>, <<64, 64>>, <<200, 201>>, <<200, 203>>, <<200, 7>>}
                       \cup {<<x, y>> : x \in Depths, y \in 0..2}
           \/ /\ s \in 0..(Seeds - 1)
              /\ \/ b = Enc(T, V) /\ d = <<>> /\ Types[ty].wired
                 \/ b = <<>> /\ d = <<ToDoc(T, V)>>

Alphabet == {0, 1, 2, 3, 4, 5, 8, 12, 252, 255}
Grow ==
    /\ s = -1 /\ Len(b) < Short
    /\ \E x \in Alphabet : b' = Append(b, x)
    /\ UNCHANGED <<ty, s, d, n>>

Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Put(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
\* Places of long byte strings where something changes.
Places(q) == {i \in 1..Len(q) : i <= 40 \/ i > Len(q) - 3}
Damage ==
    /\ s >= 0 /\ d = <<>> /\ n < (IF Twice THEN 2 ELSE 1)
    /\ \/ \E i \in Places(b) : \E x \in {0, 1, 2, 3, 4, 8, 12, 255, (b[i] + 1) % 256, (b[i] + 4) % 256, (b[i] + 252) % 256} :
             x # b[i] /\ b' = [b EXCEPT ![i] = x]
       \/ \E i \in Places(b) : b' = SubSeq(b, 1, i - 1)
       \/ \E i \in Places(b) : b' = Cut(b, i)
       \/ \E x \in {0, 1, 255} : b' = Append(b, x)
       \/ \E i \in Places(b) : b' = Put(b, i, 1)
    /\ n' = n + 1 /\ UNCHANGED <<ty, s, d>>

Odds == {Doc("odd", "null"), Doc("odd", "-1"), Doc("odd", "1.5"), Doc("str", ""), Doc("str", "1"), Doc("bool", TRUE),
         Doc("arr", <<>>), Doc("obj", <<>>), Doc("num", "0000000000000000"), Doc("num", "0001000000000000"),
         Doc("num", "0000010000000000"), Doc("num", "0000000001000000"), Doc("num", "ffffffffffffffff")}
RECURSIVE Mutants(_)
Mutants(x) ==
    Odds \cup
    CASE x.k = "str" -> {Doc("str", y) : y \in {SubSeq(x.v, 1, Len(x.v) - 1), SubSeq(x.v, 1, Len(x.v) - 2), x.v \o "00", x.v \o "0",
                                               SubSeq(x.v, 3, Len(x.v)), SubSeq(x.v, 1, Len(x.v) - 1) \o "g", SubSeq(x.v, 3, Len(x.v)) \o "0x"}}
      [] x.k = "arr" -> {Doc("arr", Cut(x.v, i)) : i \in {i \in 1..Len(x.v) : i <= 2}}
                   \cup {Doc("arr", Append(x.v, x.v[i])) : i \in {i \in 1..Len(x.v) : i <= 2}}
                   \cup UNION {{Doc("arr", [x.v EXCEPT ![i] = y]) : y \in Mutants(x.v[i])} : i \in {i \in 1..Len(x.v) : i <= 2 \/ i = Len(x.v)}}
      [] x.k = "obj" -> {Doc("obj", << <<k, x.v[1][2]>> >>) : k \in {"Single", "Combined", "single", ""}}
                   \cup {Doc("obj", x.v \o x.v), Doc("obj", Append(x.v, <<"Single", Doc("odd", "null")>>))}
                   \cup {Doc("obj", << <<x.v[1][1], y>> >>) : y \in Mutants(x.v[1][2])}
      [] OTHER -> {}
Change ==
    /\ s >= 0 /\ d # <<>> /\ n = 0
    /\ \E y \in Mutants(d[1]) : y # d[1] /\ d' = <<y>>
    /\ n' = 1 /\ UNCHANGED <<ty, s, b>>
Next == Grow \/ Damage \/ Change
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Compact proofs opened x times and then y values: bytes, and the number of
\* values left, or <<>> when these are too few.
RECURSIVE Ones(_), Ends(_)
Ones(x) == IF x = 0 THEN <<>> ELSE Append(Ones(x - 1), 1)
Ends(y) == IF y = 0 THEN <<>> ELSE <<0>> \o Enc(T.t, Val(T.t, y)) \o Ends(y - 1)
Nested(x, y) == IF y > x THEN <<y - x - 1>> ELSE <<>>
Nests == s = -2 /\ b[1] < 10 =>
    LET q == Dec(T, Ones(b[1]) \o Ends(b[2])) IN
    IF Nested(b[1], b[2]) = <<>> THEN q = No
    ELSE Good(q) /\ Len(q[2]) = Nested(b[1], b[2])[1] * (1 + T.t.n)

\* What is within its limits comes back; what is not is refused.
RoundTrip ==
    n = 0 /\ s >= 0 =>
    IF d = <<>> THEN IF Kept(T, V) THEN Dec(T, b) = <<V, <<>>>> /\ Dec(T, b \o <<1>>) = <<V, <<1>>>> ELSE Dec(T, b) = No
    ELSE IF Kept(T, V) THEN OfDoc(T, d[1]) = <<V>> ELSE OfDoc(T, d[1]) = <<>>
\* Whatever is accepted keeps to the limits and would come back again.
Sound ==
    IF s = -2 THEN TRUE ELSE
    IF d = <<>> THEN LET x == Dec(T, b) IN
                     Good(x) => Kept(T, x[1]) /\ Dec(T, Enc(T, x[1])) = <<x[1], <<>>>>
    ELSE LET x == OfDoc(T, d[1]) IN x # <<>> => Kept(T, x[1]) /\ OfDoc(T, ToDoc(T, x[1])) = x
\* No part of an encoding decodes.
PrefixFree ==
    n = 0 /\ s >= 0 /\ d = <<>> => \A i \in Places(b) : ~Good(Dec(T, SubSeq(b, 1, i - 1)))

Told ==
    LET name == Types[ty].name IN
    /\ n = 0 /\ s >= 0 => Emit("EDGE", ToJson([op |-> "out", ty |-> name, v |-> V] @@
                                  IF d = <<>> THEN [bytes |-> BytesHex(b)] ELSE [doc |-> d[1]]))
    /\ IF s = -2 THEN Emit("EDGE", ToJson([op |-> "deep", ty |-> name, n |-> b[1], k |-> b[2], ends |-> BytesHex(Enc(T, <<Val(T.t, 3)>>)), left |-> Nested(b[1], b[2])]))
       ELSE IF d # <<>> THEN Emit("EDGE", ToJson([op |-> "json", ty |-> name, doc |-> d[1], out |-> OfDoc(T, d[1])]))
       ELSE LET x == Dec(T, b) IN
            x = Wild \/ Emit("EDGE", ToJson([op |-> "bytes", ty |-> name, bytes |-> BytesHex(b),
                                 out |-> IF Good(x) THEN <<x[1]>> ELSE <<>>, left |-> IF Good(x) THEN Len(x[2]) ELSE 0]))
=============================================================================
