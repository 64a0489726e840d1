------------------------------- MODULE Merkle -------------------------------
(* Binary merkle trees over sequences of values: what the root of a vector  *)
(* or list has to be, whatever its history.  Nodes are hexadecimal strings. *)
EXTENDS Naturals, Sequences, SequencesExt, Sha

Zero(w) == Zeros(2 * w)

\* Roots of zero trees: ZeroTree[w][k + 1] is that of depth k.
ZeroChain(w) ==
    FoldLeft(LAMBDA acc, i : Append(acc, ShaHash(acc[Len(acc)], acc[Len(acc)])),
             <<Zero(w)>>, [i \in 1..64 |-> i])
Widths == {8, 16, 32}
ZeroTree == [w \in Widths |-> ZeroChain(w)]

\* A wholly unused subtree of depth d: its zero tree, or just the zero value.
Empty(mode, w, d) == IF mode = "unit" THEN Zero(w) ELSE ZeroTree[w][d + 1]

Pow2(k) == 2 ^ k

\* Root of the elements es in a tree of depth d (Len(es) <= 2^d).
RECURSIVE SeqRoot(_, _, _, _)
SeqRoot(mode, w, es, d) ==
    IF es = <<>> THEN Empty(mode, w, d)
    ELSE IF d = 0 THEN es[1]
    ELSE IF d > 30 \/ Len(es) <= Pow2(d - 1)
         THEN ShaHash(SeqRoot(mode, w, es, d - 1), Empty(mode, w, d - 1))
         ELSE LET half == Pow2(d - 1)
              IN ShaHash(SeqRoot(mode, w, SubSeq(es, 1, half), d - 1),
                         SeqRoot(mode, w, SubSeq(es, half + 1, Len(es)), d - 1))

\* A number below 2^31 as a tree value: little endian, padded with zeros.
NumVal(w, n) ==
    BytesHex([i \in 1..w |-> IF i = 1 THEN n % 256
                             ELSE IF i = 2 THEN (n \div 256) % 256
                             ELSE IF i = 3 THEN (n \div 65536) % 256
                             ELSE IF i = 4 THEN n \div 16777216
                             ELSE 0])

\* Bytes (a hexadecimal string) cut into tree values, the last padded with zeros.
Chunks(w, s) ==
    LET n == (Len(s) + 2 * w - 1) \div (2 * w)
    IN [i \in 1..n |->
          IF i < n THEN SubSeq(s, 2 * w * (i - 1) + 1, 2 * w * i)
          ELSE SubSeq(s, 2 * w * (i - 1) + 1, Len(s)) \o Zeros(2 * w * n - Len(s))]
=============================================================================
