----------------------------- MODULE TensorNet ------------------------------
(* Tensor networks up to their values: a network is a record                *)
(*   [ts |-> sequence of index sets, dims |-> sequence of dimensions,       *)
(*    out |-> set of output indices]                                        *)
(* with indices 1..Len(dims).  The cost/width measures of a model           *)
(*   [dims, sparse |-> set, nproj |-> Nat (0: no cap)].                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, BigNat

Tensors(net) == 1..Len(net.ts)
AllInds(net) == UNION {net.ts[v] : v \in Tensors(net)}

\* Indices which stay open once the tensors in L are contracted together
Open(net, L) ==
  LET inner == UNION {net.ts[v] : v \in L}
      outer == UNION {net.ts[v] : v \in Tensors(net) \ L}
  IN inner \cap (net.out \cup outer)

\* Two tensors share an index / connected components of the sharing relation
Touch(net, L) == {u \in Tensors(net) : \E v \in L : net.ts[u] \cap net.ts[v] # {}}
RECURSIVE Component(_, _)
Component(net, L) == LET M == L \cup Touch(net, L) IN IF M = L THEN L ELSE Component(net, M)
Components(net) == {Component(net, {v}) : v \in Tensors(net)}

\* Product of dimensions, as machine integer and as natural of any size
Prod(X, dims) == FoldLeft(LAMBDA a, x : a * dims[x], 1, SetToSeq(X))
BProd(X, dims) == FoldLeft(LAMBDA a, x : BMulSmall(a, dims[x]), BOne, SetToSeq(X))

LOCAL MinI(x, y) == IF x < y THEN x ELSE y
LOCAL MinB(x, y) == IF BLeq(x, y) THEN x ELSE y

\* Size with the sparse indices jointly capped by the number of projections
Size(m, X) ==
  IF m.nproj = 0 THEN Prod(X, m.dims)
  ELSE Prod(X \ m.sparse, m.dims) * MinI(Prod(X \cap m.sparse, m.dims), m.nproj)
BSize(m, X) ==
  IF m.nproj = 0 THEN BProd(X, m.dims)
  ELSE BMul(BProd(X \ m.sparse, m.dims), MinB(BProd(X \cap m.sparse, m.dims), BNat(m.nproj)))

\* An index of a single tensor cannot be summed by a pairwise contraction: it stays open,
\* whether or not it is declared as an output
Dangling(net) == {x \in AllInds(net) : \E v \in DOMAIN net.ts : x \in net.ts[v] /\ \A u \in DOMAIN net.ts : x \in net.ts[u] => u = v}
Closed(net) == [net EXCEPT !.out = @ \cup Dangling(net)]
=============================================================================
