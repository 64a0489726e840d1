----------------------------- MODULE Containers -----------------------------
(* The abstract containers of bm.  A container is an array of elements with *)
(* a kind and, optionally, a maximum length; its root is a function of      *)
(* exactly these.  Apply gives the effect and the result of one operation.  *)
(*                                                                          *)
(* kind: "vec" and "list" hold tree values, "pvec" and "plist" elements of  *)
(*       `ew' bytes packed into tree values; lists mix in their length.     *)
(* ml:   <<>> or <<maximum length as a big number>>.                        *)
EXTENDS Naturals, Sequences, BigNat, Merkle

IsList(k) == k \in {"list", "plist"}
IsPacked(k) == k \in {"pvec", "plist"}

Container(kind, ew, ml, es) == [kind |-> kind, ew |-> ew, ml |-> ml, es |-> es]

ZeroElem(w, c) == IF IsPacked(c.kind) THEN Zeros(2 * c.ew) ELSE Zero(w)

\* The tree values which hold the elements.
Hosts(w, c) == IF IsPacked(c.kind) THEN Chunks(w, JoinAll(c.es)) ELSE c.es

\* The most tree values the container may have.
HostMax(w, c) == IF IsPacked(c.kind) THEN CeilDiv(MulAdd(c.ml[1], c.ew, 0), w) ELSE c.ml[1]

\* The depth of the elements: fixed by the maximum, or by the length.
Depth(w, c) == IF c.ml = <<>> THEN CeilLog2(Len(Hosts(w, c))) ELSE BigCeilLog2(HostMax(w, c))

InnerRoot(mode, w, c) == SeqRoot(mode, w, Hosts(w, c), Depth(w, c))

Root(mode, w, c) ==
    IF IsList(c.kind) THEN ShaHash(InnerRoot(mode, w, c), NumVal(w, Len(c.es)))
    ELSE InnerRoot(mode, w, c)

-----------------------------------------------------------------------------
(* Operations.  `i' is zero-based as in the code. *)

Result(res, out, c) == [res |-> res, out |-> out, c |-> c]

CreateRes(w, kind, ew, ml, n) ==
    IF ml # <<>> /\ (ml[1] = <<>> \/ ~LeqBig(n, ml[1])) THEN "invalid" ELSE "ok"

Created(w, kind, ew, ml, n) ==
    LET c == Container(kind, ew, ml, <<>>) IN [c EXCEPT !.es = [i \in 1..n |-> ZeroElem(w, c)]]

Full(c) == c.ml # <<>> /\ ~LessBig(Len(c.es), c.ml[1])

Push(c, v) == IF Full(c) THEN Result("overflow", "", c)
              ELSE Result("ok", "", [c EXCEPT !.es = Append(@, v)])

Pop(c) == IF c.es = <<>> THEN Result("ok", "none", c)
          ELSE Result("ok", c.es[Len(c.es)], [c EXCEPT !.es = SubSeq(@, 1, Len(@) - 1)])

Get(c, i) == IF i >= Len(c.es) THEN Result("overflow", "", c) ELSE Result("ok", c.es[i + 1], c)

Set(c, i, v) == IF i >= Len(c.es) THEN Result("overflow", "", c)
                ELSE Result("ok", "", [c EXCEPT !.es = [@ EXCEPT ![i + 1] = v]])

Apply(c, e) ==
    CASE e.op = "push" -> Push(c, e.v)
      [] e.op = "pop"  -> Pop(c)
      [] e.op = "get"  -> Get(c, e.i)
      [] e.op = "set"  -> Set(c, e.i, e.v)
      [] OTHER         -> Result("ok", "", c)     \* closing and re-opening, reading back
=============================================================================
