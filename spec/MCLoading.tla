----------------------------- MODULE MCLoading ------------------------------
(* All descriptions of up to N rows over two tensors and both markers:      *)
(* reading what a network is written as gives the network.                  *)
EXTENDS Loading
CONSTANT N
Row == {q \in UNION {[1..k -> (-1)..2] : k \in 1..4} : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
VARIABLE rows
Init == rows = <<>>
Next == Len(rows) < N /\ \E q \in Row, d \in {2, 4} : rows' = Append(rows, <<d>> \o q)
Spec == Init /\ [][Next]_rows

\* An index is open (sparse) exactly if it is marked, it belongs to the tensors which are named
Reads == LET net == Described(rows)
         IN /\ \A x \in DOMAIN rows : /\ (x \in OutOf(net)) = (Out \in El(Tail(rows[x])))
                                      /\ (x \in SparseOf(net)) = (Sparse \in El(Tail(rows[x])))
                                      /\ {net.names[v] : v \in Uses(net, x)} = {y \in El(Tail(rows[x])) : y > 0}
            /\ OneDim(net)
            /\ Fit(rows) = (\A x \in OutOf(net) \cup SparseOf(net) : Uses(net, x) # {})
\* The order of the names in a row does not matter, except for the order of the tensors
LOCAL Swap(q) == [j \in DOMAIN q |-> IF j = 1 THEN q[1] ELSE q[Len(q) + 2 - j]]
Reorder == LET a == Described(rows)  b == Described([x \in DOMAIN rows |-> Swap(rows[x])])
           IN /\ El(a.names) = El(b.names) /\ OutOf(a) = OutOf(b) /\ SparseOf(a) = SparseOf(b)
              /\ \A v \in DOMAIN a.names : \A u \in DOMAIN b.names : a.names[v] = b.names[u] => a.ts[v] = b.ts[u]
=============================================================================
