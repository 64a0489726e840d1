------------------------------- MODULE Store -------------------------------
(* The reference-counted node store of the in-memory backend.               *)
(* A store maps a value to [k |-> its children or <<>>, c |-> count], where *)
(* the count is the number of links from stored nodes and owning roots, or  *)
(* Pinned for the zero value and for nodes that came from a proof.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Merkle

Pinned == -1

EmptyStore(w) == [x \in {Zero(w)} |-> [k |-> <<>>, c |-> Pinned]]

Has(db, k) == k \in DOMAIN db
Kids(db, k) == IF Has(db, k) THEN db[k].k ELSE <<>>

Upd(db, k, e) == [x \in DOMAIN db \cup {k} |-> IF x = k THEN e ELSE db[x]]

\* One more link to k.
Link(db, k) ==
    IF Has(db, k) THEN IF db[k].c = Pinned THEN db ELSE [db EXCEPT ![k].c = @ + 1]
    ELSE Upd(db, k, [k |-> <<>>, c |-> 1])

\* One link less; a node without links goes, and with it its own links.
RECURSIVE Unlink(_, _)
Unlink(db, k) ==
    IF ~Has(db, k) \/ db[k].c = Pinned THEN db
    ELSE IF db[k].c > 1 THEN [db EXCEPT ![k].c = @ - 1]
    ELSE LET e  == db[k]
             d0 == [db EXCEPT ![k].c = 0]
             d1 == IF e.k = <<>> THEN d0 ELSE Unlink(Unlink(d0, e.k[1]), e.k[2])
         IN [x \in DOMAIN d1 \ {k} |-> d1[x]]

Rootify(db, k) == Link(db, k)
Unrootify(db, k) == Unlink(db, k)

Insert(db, k, l, r) ==
    IF Kids(db, k) # <<>> THEN db
    ELSE LET d == Link(Link(db, l), r)
         IN IF Has(d, k) THEN [d EXCEPT ![k].k = <<l, r>>]
            ELSE Upd(d, k, [k |-> <<l, r>>, c |-> 0])

InsertNode(db, l, r) == Insert(db, ShaHash(l, r), l, r)

\* A proof: a set of <<key, left, right>>.  Its nodes and their children are
\* kept for good, also those that were there already.
Populate(db, ps) ==
    LET keys == {p[1] : p \in ps}
        subs == UNION {{p[2], p[3]} : p \in ps}
        node(k) == CHOOSE p \in ps : p[1] = k
    IN [x \in DOMAIN db \cup keys \cup subs |->
          IF x \in keys THEN [k |-> <<node(x)[2], node(x)[3]>>, c |-> Pinned]
          ELSE IF x \in subs THEN [k |-> Kids(db, x), c |-> Pinned]
          ELSE db[x]]

\* The zero trees up to depth d are stored, in inherited-empty mode.
RECURSIVE EmptyAt(_, _, _, _)
EmptyAt(db, mode, w, d) ==
    IF mode = "unit" \/ d = 0 THEN db
    ELSE InsertNode(EmptyAt(db, mode, w, d - 1), ZeroTree[w][d], ZeroTree[w][d])

-----------------------------------------------------------------------------
(* Reading and writing trees.  A path is a sequence of 0 (left), 1 (right). *)

RECURSIVE At(_, _, _)
At(db, root, path) ==      \* <<value>> or <<>> below a childless value
    IF path = <<>> THEN <<root>>
    ELSE LET k == Kids(db, root)
         IN IF k = <<>> THEN <<>> ELSE At(db, k[1 + Head(path)], Tail(path))

RECURSIVE Build(_, _, _, _, _)
Build(db, w, root, path, v) ==   \* <<store, new root>>
    IF path = <<>> THEN <<db, v>>
    ELSE LET \* the value on the path below a childless one stays the childless value
             k  == Kids(db, root)
             lr == IF k = <<>> THEN <<Zero(w), Zero(w)>> ELSE k
             nx == IF k = <<>> THEN root ELSE k[1 + Head(path)]
             b  == Build(db, w, nx, Tail(path), v)
             l  == IF Head(path) = 0 THEN b[2] ELSE lr[1]
             r  == IF Head(path) = 1 THEN b[2] ELSE lr[2]
         IN <<InsertNode(b[1], l, r), ShaHash(l, r)>>

\* Set the value at a path of the tree at root: <<store, new root>>.
SetAt(db, w, own, root, path, v) ==
    LET b == Build(db, w, root, path, v)
    IN IF own THEN <<Unrootify(Rootify(b[1], b[2]), root), b[2]>> ELSE b

\* Path of depth d to position i (zero-based).
RECURSIVE PathTo(_, _)
PathTo(i, d) == IF d = 0 THEN <<>> ELSE Append(PathTo(i \div 2, d - 1), i % 2)

-----------------------------------------------------------------------------
(* Reachability and what a well-kept store looks like.                      *)

RECURSIVE ReachFrom(_, _, _)
ReachFrom(db, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET nxt == UNION {{Kids(db, x)[i] : i \in DOMAIN Kids(db, x)} : x \in todo}
         IN ReachFrom(db, nxt \ (seen \cup todo), seen \cup todo)
Reach(db, roots) == ReachFrom(db, roots, {})

Links(db, k) ==    \* links from stored nodes
    Cardinality({x \in DOMAIN db : db[x].k # <<>> /\ db[x].k[1] = k})
  + Cardinality({x \in DOMAIN db : db[x].k # <<>> /\ db[x].k[2] = k})

\* Every stored node is the hash of its children, which are stored too.
WellFormed(db) ==
    \A x \in DOMAIN db :
        db[x].k # <<>> => /\ x = ShaHash(db[x].k[1], db[x].k[2])
                          /\ {db[x].k[1], db[x].k[2]} \subseteq DOMAIN db
=============================================================================
