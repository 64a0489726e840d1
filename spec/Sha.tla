-------------------------------- MODULE Sha --------------------------------
(* The concrete compression function of the tree: SHA-256 of the            *)
(* concatenation of two values, cut to the width of the values.  Values are *)
(* lower-case hexadecimal strings.  TLC evaluates ShaHash with the Java     *)
(* class Sha (spec/java/Sha.java), which is independent of the code under   *)
(* test; the definition below only gives it a meaning for SANY.             *)
EXTENDS Naturals, Sequences

ShaHash(l, r) == CHOOSE s \in STRING : Len(s) = Len(l)

\* `n' zero digits.
Zeros(n) == CHOOSE s \in STRING : Len(s) = n

\* The numbers 0..255 of the bytes of a hexadecimal string, and back.
HexBytes(s) == CHOOSE q \in Seq(0..255) : Len(q) = Len(s) \div 2
BytesHex(q) == CHOOSE s \in STRING : Len(s) = 2 * Len(q)

\* All elements of a sequence of strings, one after the other.
JoinAll(q) == CHOOSE s \in STRING : TRUE

\* A short name for any value.
Digest(v) == CHOOSE s \in STRING : TRUE

\* Print a line "@@tag text" (TRUE): how a model hands its transitions to the
\* replayer.
Emit(tag, text) == TRUE
============================================================================
