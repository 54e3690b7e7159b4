------------------------------ MODULE MCValues ------------------------------
(* The value does not depend on the path: all networks of three tensors     *)
(* over m indices of dimension 2 with fixed entries, all pairwise           *)
(* contractions, keeping exactly the open indices.                          *)
EXTENDS Paths, Values, TLC
CONSTANTS n, m
VARIABLES net, list        \* list: sequence of [L, inds, q]
Dims == [x \in 1..m |-> 2]
Ent(v, inds) == [j \in 1..(2 ^ Len(inds)) |-> ((v * 7 + j * j * 3) % 5) - 2]
InOrder(X) == Sorted(X)
Nets == {[ts |-> f, dims |-> Dims, out |-> o] : f \in [1..n -> SUBSET (1..m)], o \in SUBSET (1..m)}
Init == /\ \E q \in Nets : q.out \subseteq AllInds(q) /\ net = Closed(q)
        /\ list = [v \in 1..n |-> [L |-> {v}, inds |-> InOrder(net.ts[v]), q |-> Ent(v, InOrder(net.ts[v]))]]
\* One pairwise contraction, by the definition of the pair alone
Dot(x, y, z) == [j \in 1..SizeOf(z, Dims) |->
                   LET g == CHOOSE f \in Assigns(Elems(z), Dims) : Pos(z, Dims, f) = j
                   IN Denote(<<x.inds, y.inds>>, <<x.q, y.q>>, Dims, Elems(z), g)]
Next == /\ UNCHANGED net
        /\ \E a, b \in DOMAIN list : a < b /\
             LET L == list[a].L \cup list[b].L
                 z == InOrder(Open(net, L))
             IN list' = TLCEval(Append(Without(list, {a, b}), [L |-> L, inds |-> z, q |-> Dot(list[a], list[b], z)]))
Spec == Init /\ [][Next]_<<net, list>>
\* Every intermediate tensor is the value of its part of the network
Value == \A j \in DOMAIN list : LET pos == Sorted(list[j].L)
           IN Cardinality(list[j].L) > 1 => IsValue(list[j].inds, list[j].q, [k \in DOMAIN pos |-> InOrder(net.ts[pos[k]])],
                      [k \in DOMAIN pos |-> Ent(pos[k], InOrder(net.ts[pos[k]]))], Dims)
=============================================================================
