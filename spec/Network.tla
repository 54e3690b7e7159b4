------------------------------ MODULE Network -------------------------------
(* Which descriptions of tensors and of tensor networks are consistent, and *)
(* what an accepted one consists of.  Dimensions come in halves (3 is 1.5), *)
(* so that numbers which are not whole can be written down.                 *)
(* A tensor: [inds, dk |-> "none" | "one" | "list", dims, hasarray, shape]. *)
(* A network: [ts |-> <<[inds, dims]>>, hasout, out, hassparse, sparse]     *)
(* with index lists of distinct indices and whole dimensions.               *)
EXTENDS Integers, Sequences, FiniteSets

El(q) == {q[j] : j \in DOMAIN q}
Whole(d) == d % 2 = 0 /\ d > 0

\* ----------------------------------------------------------------- tensors
GivenDims(t) ==
  CASE t.dk = "none" -> [j \in DOMAIN t.shape |-> 2 * t.shape[j]]
    [] t.dk = "one" -> [j \in DOMAIN t.inds |-> t.dims[1]]
    [] t.dk = "list" -> t.dims
TensorOk(t) ==
  /\ t.dk # "none" \/ t.hasarray
  /\ t.dk = "one" => Whole(t.dims[1])
  /\ LET d == GivenDims(t)
     IN /\ \A j \in DOMAIN d : Whole(d[j])
        /\ Len(d) = Len(t.inds)
        /\ t.hasarray => d = [j \in DOMAIN t.shape |-> 2 * t.shape[j]]
TensorDims(t) == [j \in DOMAIN t.inds |-> GivenDims(t)[j] \div 2]

\* ---------------------------------------------------------------- networks
Uses(net, x) == {v \in DOMAIN net.ts : x \in El(net.ts[v].inds)}
Inds(net) == UNION {El(net.ts[v].inds) : v \in DOMAIN net.ts}
DimOf(net, x) == LET v == CHOOSE u \in DOMAIN net.ts : x \in El(net.ts[u].inds)
                 IN net.ts[v].dims[CHOOSE j \in DOMAIN net.ts[v].inds : net.ts[v].inds[j] = x]
OneDim(net) == \A v \in DOMAIN net.ts : \A j \in DOMAIN net.ts[v].inds :
                 net.ts[v].dims[j] = DimOf(net, net.ts[v].inds[j])
Hyper(net) == {x \in Inds(net) : Cardinality(Uses(net, x)) > 2}
NetOk(net) ==
  /\ OneDim(net)
  /\ IF net.hasout THEN El(net.out) \subseteq Inds(net) ELSE Hyper(net) = {}
  /\ net.hassparse => El(net.sparse) \subseteq Inds(net)
OutOf(net) == IF net.hasout THEN El(net.out) ELSE {x \in Inds(net) : Cardinality(Uses(net, x)) = 1}
SparseOf(net) == IF net.hassparse THEN El(net.sparse) ELSE {}
=============================================================================
