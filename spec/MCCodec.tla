------------------------------- MODULE MCCodec -------------------------------
(* Every type of the catalogue with a family of its values, encoded into a  *)
(* store on its own or with another value; then one thing goes wrong: a     *)
(* node is lost, or one position of the tree holds something else.          *)
(* The catalogue comes from the harness (IOEnv.TYPES), which describes the  *)
(* Rust types it encodes.                                                   *)
EXTENDS Gens, TLC, IOUtils

CONSTANTS Seeds,     \* values per type
          Partners,  \* types a second value is taken from (0: none)
          Damage,    \* numbers of the values which get damaged
          Rich,      \* TRUE: more values put into damaged trees
          Mode

Types == ndJsonDeserialize(IOEnv.TYPES)

VARIABLES ty, s, also, dmg
vars == <<ty, s, also, dmg>>
T == Types[ty].t
V == Gen(T, s)
Ours == Enc(Mode, T, V)
None == <<"none">>

Init == ty \in 1..Len(Types) /\ s \in 0..(Seeds - 1) /\ also = <<>> /\ dmg = None

Second ==
    /\ also = <<>> /\ dmg = None
    /\ \E p \in 1..Partners, s2 \in {s % 3, s + 1} :
          also' = <<1 + ((ty + 7 * p - 1) % Len(Types)), s2>>
    /\ UNCHANGED <<ty, s, dmg>>

\* Positions of a tree, not those inside zero trees.
Zeroes == {ZeroTree[W][k] : k \in 1..65}
RECURSIVE Positions(_, _, _)
Positions(st, root, path) ==
    {path} \cup IF root \in DOMAIN st /\ root \notin Zeroes
                THEN Positions(st, st[root][1], Append(path, 0)) \cup Positions(st, st[root][2], Append(path, 1))
                ELSE {}

Num64 == BytesHex([i \in 1..W |-> IF i = 9 THEN 1 ELSE 0])
Num58 == BytesHex([i \in 1..W |-> IF i = 8 THEN 4 ELSE 0])
Num63 == BytesHex([i \in 1..W |-> IF i = 8 THEN 128 ELSE 0])
Odd == BytesHex([i \in 1..W |-> (i * 5) % 256])
Stuff == {Z, NumVal(W, 1), Num58, BytesHex([i \in 1..W |-> 255]), Odd}
    \cup IF Rich THEN {NumVal(W, 2), NumVal(W, 300), Num63, Num64} ELSE {}

\* Limits which let a damaged length of billions of billions through.
Immense == T.k \in {"list", "clist"} /\ T.max # <<>> /\ BigBits(T.max[1]) > 50

Lose ==
    /\ ~Immense
    /\ s \in Damage /\ also = <<>> /\ dmg = None
    /\ \E n \in Ours.nodes : dmg' = <<"lose", n[1]>>
    /\ UNCHANGED <<ty, s, also>>
Put ==
    /\ ~Immense
    /\ s \in Damage /\ also = <<>> /\ dmg = None
    /\ \E p \in Positions(AsStore(Ours.nodes), Ours.root, <<>>) :
          \E x \in Stuff \cup {Ours.root} : dmg' = <<"put", p, x>>
    /\ UNCHANGED <<ty, s, also>>
Next == Second \/ Lose \/ Put
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The tree with x at a position, and the nodes that are new in it.
RECURSIVE PutAt(_, _, _, _)
PutAt(st, root, path, x) ==
    IF path = <<>> THEN <<x, {}>>
    ELSE LET l == st[root][1]
             r == st[root][2]
             a == PutAt(st, IF Head(path) = 0 THEN l ELSE r, Tail(path), x)
             n == IF Head(path) = 0 THEN <<a[1], r>> ELSE <<l, a[1]>>
             k == ShaHash(n[1], n[2])
         IN <<k, a[2] \cup {<<k, n[1], n[2]>>}>>

\* Damaged: [root, nodes, lost, added].
Broken ==
    IF dmg[1] = "lose"
    THEN [root |-> Ours.root, lost |-> dmg[2], added |-> {},
          nodes |-> {n \in Ours.nodes : n[1] # dmg[2]}]
    ELSE LET p == PutAt(AsStore(Ours.nodes), Ours.root, dmg[2], dmg[3])
         IN [root |-> p[1], lost |-> "", added |-> p[2], nodes |-> Ours.nodes \cup p[2]]

Id == ToString(ty) \o "." \o ToString(s)

\* The code's way of building a tree gives the specified one.
SameRoot == also = <<>> /\ dmg = None => QRoot(Mode, T, V) = Ours.root

\* Decoding inverts encoding, with other values in the store.
RoundTrip ==
    dmg = None =>
    LET more == IF also = <<>> THEN {} ELSE Enc(Mode, Types[also[1]].t, Gen(Types[also[1]].t, also[2])).nodes
    IN Same(Dec(AsStore(Ours.nodes \cup more), T, Ours.root), <<V>>)

\* Without a node the value is the same or there is none.
NoDeception ==
    dmg[1] = "lose" =>
    LET x == Dec(AsStore(Broken.nodes), T, Broken.root) IN Same(x, <<V>>) \/ x = <<>>

Told ==
    CASE dmg = None /\ also = <<>> ->
            /\ s \in Damage => Emit("STATE", ToJson([id |-> Id, nodes |-> Ours.nodes]))
            /\ Emit("EDGE", ToJson([op |-> "enc", ty |-> Types[ty].name, v |-> V, root |-> Ours.root, mode |-> Mode,
                                 bare |-> Dec(<< >>, T, Ours.root)]))
      [] dmg = None -> LET t2 == Types[also[1]] IN
            Emit("EDGE", ToJson([op |-> "two", ty |-> Types[ty].name, v |-> V, root |-> Ours.root, mode |-> Mode,
                                 ty2 |-> t2.name, v2 |-> Gen(t2.t, also[2])]))
      [] OTHER ->
            LET x == Dec(AsStore(Broken.nodes), T, Broken.root)
            IN Emit("EDGE", ToJson([op |-> "bad", ty |-> Types[ty].name, id |-> Id, root |-> Broken.root,
                        lost |-> Broken.lost, added |-> Broken.added, mode |-> Mode, out |-> x,
                        canon |-> Canonical(Mode, AsStore(Broken.nodes), T, Broken.root)]))
=============================================================================
