----------------------------- MODULE MCNetwork ------------------------------
(* All descriptions of networks of up to N tensors over the indices 1..M    *)
(* with dimensions 1 and 2.                                                 *)
EXTENDS Network
CONSTANTS N, M

Lists == {q \in UNION {[1..k -> 1..M] : k \in 0..M} : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
Ts == UNION {{[inds |-> q, dims |-> d] : d \in [DOMAIN q -> {1, 2}]} : q \in Lists}
Subs == {q \in UNION {[1..k -> 1..(M + 1)] : k \in 0..2} : \A i, j \in DOMAIN q : i < j => q[i] < q[j]}

VARIABLE net
Init == net = [ts |-> <<>>, hasout |-> FALSE, out |-> <<>>, hassparse |-> FALSE, sparse |-> <<>>]
Next == \/ Len(net.ts) < N /\ ~net.hasout /\ ~net.hassparse /\ \E t \in Ts : net' = [net EXCEPT !.ts = Append(@, t)]
        \/ ~net.hasout /\ \E q \in Subs : net' = [net EXCEPT !.hasout = TRUE, !.out = q]
        \/ ~net.hassparse /\ \E q \in Subs : net' = [net EXCEPT !.hassparse = TRUE, !.sparse = q]
Spec == Init /\ [][Next]_net

\* Whether a network is accepted does not depend on the order of its tensors
Order == \A a, b \in DOMAIN net.ts :
           LET other == [net EXCEPT !.ts = [j \in DOMAIN net.ts |-> net.ts[IF j = a THEN b ELSE IF j = b THEN a ELSE j]]]
           IN NetOk(other) = NetOk(net) /\ (NetOk(net) => OutOf(other) = OutOf(net))
\* Declaring the default output indices changes nothing
Default == NetOk(net) /\ ~net.hasout =>
             \E q \in {[j \in 1..Cardinality(OutOf(net)) |-> CHOOSE x \in OutOf(net) : Cardinality({y \in OutOf(net) : y < x}) = j - 1]} :
               LET said == [net EXCEPT !.hasout = TRUE, !.out = q]
               IN NetOk(said) /\ OutOf(said) = OutOf(net) /\ SparseOf(said) = SparseOf(net)
\* In an accepted network every tensor's dimensions are the ones of its indices, and what is open or sparse exists
Consistent == NetOk(net) => /\ OutOf(net) \cup SparseOf(net) \subseteq Inds(net)
                            /\ \A v \in DOMAIN net.ts : net.ts[v].dims = [j \in DOMAIN net.ts[v].inds |-> DimOf(net, net.ts[v].inds[j])]
\* Every tensor is acceptable on its own
Alone == \A v \in DOMAIN net.ts :
           TensorOk([inds |-> net.ts[v].inds, dk |-> "list", dims |-> [j \in DOMAIN net.ts[v].dims |-> 2 * net.ts[v].dims[j]],
                     hasarray |-> TRUE, shape |-> net.ts[v].dims])
=============================================================================
