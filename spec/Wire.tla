-------------------------------- MODULE Wire --------------------------------
(* The wire formats of values that go from machine to machine: bytes        *)
(* (SCALE) and JSON documents.  Types and values are those of Ssz, with     *)
(*   [k |-> "cv", t]     a compact proof    value: <<v>> or <<left, right>> *)
(* and lists which carry a limit.  A limit changes what is accepted, never  *)
(* what is written.                                                         *)
(*                                                                          *)
(* Bytes are sequences of 0..255.  Documents are records [k, v]:            *)
(*   "num" (8 bytes LE, hex), "str", "bool", "arr" (sequence),              *)
(*   "obj" (sequence of <<key, document>>), "odd" (text of another kind:    *)
(*   null, -1, 1.5)                                                         *)
EXTENDS Naturals, Sequences, BigNat, Merkle

Within(t, n) == t.max = <<>> \/ LeqBig(n, t.max[1])

-----------------------------------------------------------------------------
(* Bytes.                                                                   *)

\* The number of elements of a list.
Size(n) ==
    IF n < 64 THEN <<4 * n>>
    ELSE IF n < 16384 THEN <<((4 * n) % 256) + 1, n \div 64>>
    ELSE <<((4 * n) % 256) + 2, (n \div 64) % 256, (n \div 16384) % 256, n \div 4194304>>

RECURSIVE Enc(_, _), EncAll(_, _)
Enc(t, v) ==
    CASE t.k \in {"u", "bool", "hash"} -> HexBytes(v)
      [] t.k = "prod" -> EncAll([i \in 1..Len(v) |-> t.ts[i]], v)
      [] t.k = "list" -> Size(Len(v)) \o EncAll([i \in 1..Len(v) |-> t.t], v)
      [] t.k = "cv"   -> IF Len(v) = 1 THEN <<0>> \o Enc(t.t, v[1])
                         ELSE <<1>> \o Enc(t, v[1]) \o Enc(t, v[2])
EncAll(ts, vs) == IF vs = <<>> THEN <<>> ELSE Enc(Head(ts), Head(vs)) \o EncAll(Tail(ts), Tail(vs))

\* Decoding: <<value, bytes left>>, or <<"no">>; <<"wild">> when the bytes
\* claim a number of elements no machine has room for.
No == <<"no">>
Wild == <<"wild">>
Good(x) == Len(x) = 2
From(b, n) == SubSeq(b, n + 1, Len(b))

\* <<number, bytes left>>
Sized(b) ==
    IF b = <<>> THEN No
    ELSE LET m == b[1] % 4 IN
    IF m = 0 THEN <<b[1] \div 4, From(b, 1)>>
    ELSE IF m = 1 THEN IF Len(b) < 2 THEN No ELSE <<b[1] \div 4 + 64 * b[2], From(b, 2)>>
    ELSE IF m = 2
         THEN IF Len(b) < 4 THEN No
              ELSE IF b[4] # 0 \/ b[3] > 15 THEN Wild
              ELSE <<b[1] \div 4 + 64 * b[2] + 16384 * b[3], From(b, 4)>>
    ELSE IF b[1] # 3 \/ Len(b) < 5 THEN No
         ELSE IF b[5] # 0 \/ b[4] # 0 THEN Wild
         ELSE <<b[2] + 256 * b[3], From(b, 5)>>

RECURSIVE Dec(_, _), DecAll(_, _, _)
Dec(t, b) ==
    CASE t.k \in {"u", "hash"} ->
            IF Len(b) < t.n THEN No ELSE <<BytesHex(SubSeq(b, 1, t.n)), From(b, t.n)>>
      [] t.k = "bool" ->
            IF b = <<>> \/ b[1] > 1 THEN No ELSE <<BytesHex(SubSeq(b, 1, 1)), From(b, 1)>>
      [] t.k = "prod" -> DecAll(t.ts, b, <<>>)
      [] t.k = "list" ->
            LET n == Sized(b) IN
            IF ~Good(n) THEN n
            ELSE IF n[1] > 300 /\ Len(n[2]) < n[1] THEN No     \* every element takes a byte
            ELSE LET x == DecAll([i \in 1..n[1] |-> t.t], n[2], <<>>)
                 IN IF Good(x) /\ ~Within(t, n[1]) THEN No ELSE x
      [] t.k = "cv" ->
            IF b = <<>> THEN No
            ELSE IF b[1] = 0 THEN LET x == Dec(t.t, From(b, 1)) IN IF Good(x) THEN << <<x[1]>>, x[2] >> ELSE x
            ELSE IF b[1] = 1 THEN DecAll(<<t, t>>, From(b, 1), <<>>)
            ELSE No
DecAll(ts, b, acc) ==
    IF ts = <<>> THEN <<acc, b>>
    ELSE LET x == Dec(Head(ts), b) IN IF Good(x) THEN DecAll(Tail(ts), x[2], Append(acc, x[1])) ELSE x

-----------------------------------------------------------------------------
(* Documents.                                                               *)

Doc(k, v) == [k |-> k, v |-> v]

RECURSIVE ToDoc(_, _)
ToDoc(t, v) ==
    CASE t.k = "u"    -> Doc("num", v \o Zeros(16 - Len(v)))
      [] t.k = "bool" -> Doc("bool", v = "01")
      [] t.k = "hash" -> Doc("str", "0x" \o v)
      [] t.k = "prod" -> Doc("arr", [i \in 1..Len(v) |-> ToDoc(t.ts[i], v[i])])
      [] t.k = "list" -> Doc("arr", [i \in 1..Len(v) |-> ToDoc(t.t, v[i])])
      [] t.k = "cv"   -> IF Len(v) = 1 THEN Doc("obj", << <<"Single", ToDoc(t.t, v[1])>> >>)
                         ELSE Doc("obj", << <<"Combined", Doc("arr", <<ToDoc(t, v[1]), ToDoc(t, v[2])>>)>> >>)

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
Hex(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digit

\* <<value>> or <<>>.
RECURSIVE OfDoc(_, _)
All(xs) == IF \A i \in DOMAIN xs : xs[i] # <<>> THEN << [i \in DOMAIN xs |-> xs[i][1]] >> ELSE <<>>
OfDoc(t, d) ==
    CASE t.k = "u" ->
            IF d.k # "num" THEN <<>>
            ELSE IF SubSeq(d.v, 2 * t.n + 1, 16) = Zeros(16 - 2 * t.n) THEN <<SubSeq(d.v, 1, 2 * t.n)>> ELSE <<>>
      [] t.k = "bool" -> IF d.k # "bool" THEN <<>> ELSE IF d.v THEN <<"01">> ELSE <<"00">>
      [] t.k = "hash" ->
            IF d.k # "str" THEN <<>>
            ELSE IF Len(d.v) # 2 * t.n + 2 THEN <<>>
            ELSE IF SubSeq(d.v, 1, 2) # "0x" THEN <<>>
            ELSE LET h == SubSeq(d.v, 3, Len(d.v)) IN IF Hex(h) THEN <<h>> ELSE <<>>
      [] t.k = "prod" ->
            IF d.k # "arr" THEN <<>>
            ELSE IF Len(d.v) # Len(t.ts) THEN <<>>
            ELSE All([i \in 1..Len(d.v) |-> OfDoc(t.ts[i], d.v[i])])
      [] t.k = "list" ->
            IF d.k # "arr" THEN <<>>
            ELSE IF ~Within(t, Len(d.v)) THEN <<>>
            ELSE All([i \in 1..Len(d.v) |-> OfDoc(t.t, d.v[i])])
      [] t.k = "cv" ->
            IF d.k # "obj" THEN <<>>
            ELSE IF Len(d.v) # 1 THEN <<>>
            ELSE CASE d.v[1][1] = "Single" -> All(<<OfDoc(t.t, d.v[1][2])>>)
                   [] d.v[1][1] = "Combined" -> OfDoc([k |-> "prod", ts |-> <<t, t>>], d.v[1][2])
                   [] OTHER -> <<>>
=============================================================================
