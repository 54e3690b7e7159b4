------------------------------- MODULE CTree --------------------------------
(* Rooted binary trees with links in both directions, sub-tree exchanges,   *)
(* and contraction trees (a tree plus an index set per node).               *)
(* A tree is a record [par, c1, c2] of sequences over nodes 1..N, 0 = none. *)
(* Leaves are 1..n and the root is N = 2n - 1.                              *)
EXTENDS TensorNet

Nodes(t) == 1..Len(t.par)
IsLeaf(t, v) == t.c1[v] = 0 /\ t.c2[v] = 0
IsRoot(t, v) == t.par[v] = 0
Leaves(t) == {v \in Nodes(t) : IsLeaf(t, v)}
Kids(t, v) == {t.c1[v], t.c2[v]} \ {0}
Sibling(t, v) == LET p == t.par[v] IN IF t.c1[p] = v THEN t.c2[p] ELSE t.c1[p]

RECURSIVE ReachFrom(_, _, _)
LOCAL ReachFrom(t, R, k) ==
  IF k = 0 THEN R
  ELSE LET Q == R \cup UNION {Kids(t, v) : v \in R}
       IN IF Q = R THEN R ELSE ReachFrom(t, Q, k - 1)

\* A rooted binary tree, with leaves first and the root last
IsTree(t) ==
  LET N == Len(t.par)
  IN /\ N >= 1 /\ Len(t.c1) = N /\ Len(t.c2) = N
     /\ \A v \in 1..N : t.par[v] \in 0..N /\ t.c1[v] \in 0..N /\ t.c2[v] \in 0..N
     /\ {v \in 1..N : t.par[v] = 0} = {N}
     /\ \A v \in 1..N : \/ t.c1[v] = 0 /\ t.c2[v] = 0
                        \/ /\ t.c1[v] # 0 /\ t.c2[v] # 0 /\ t.c1[v] # t.c2[v]
                           /\ t.par[t.c1[v]] = v /\ t.par[t.c2[v]] = v
     /\ \A v \in 1..(N - 1) : v \in Kids(t, t.par[v])
     /\ ReachFrom(t, {N}, N) = 1..N
     /\ LET n == Cardinality(Leaves(t)) IN Leaves(t) = 1..n

\* Same tree up to the order of children
SameTree(t, u) == t.par = u.par /\ \A v \in Nodes(t) : Kids(t, v) = Kids(u, v)

\* Leaves below each node
Below(t) ==
  LET f[v \in Nodes(t)] == IF IsLeaf(t, v) THEN {v} ELSE f[t.c1[v]] \cup f[t.c2[v]]
  IN [v \in Nodes(t) |-> f[v]]

\* Exchange node e with the sibling of its parent
CanExchange(t, e) ==
  /\ e \in Nodes(t) /\ ~IsRoot(t, e) /\ ~IsRoot(t, t.par[e])
Exchange(t, e) ==
  LET b == t.par[e]
      a == t.par[b]
      c == Sibling(t, b)
      sub(x) == IF x = e THEN c ELSE IF x = c THEN e ELSE x
  IN [par |-> [t.par EXCEPT ![e] = a, ![c] = b],
      c1 |-> [t.c1 EXCEPT ![a] = sub(t.c1[a]), ![b] = sub(t.c1[b])],
      c2 |-> [t.c2 EXCEPT ![a] = sub(t.c2[a]), ![b] = sub(t.c2[b])]]

-----------------------------------------------------------------------------
(* Contraction trees: xs[v] is the index set of node v.                     *)

\* What contracting each sub-tree leaves open
OpenInds(net, t) == LET b == Below(t) IN [v \in Nodes(t) |-> IF IsLeaf(t, v) THEN net.ts[v] ELSE Open(net, b[v])]

\* Clauses of a valid contraction tree of a network
CTreeClauses(net, t, xs) ==
  IF ~IsTree(t) THEN {"tree"}
  ELSE (IF Cardinality(Leaves(t)) = Len(net.ts) THEN {} ELSE {"leaves"})
       \cup (IF Len(xs) = Len(t.par) /\ Cardinality(Leaves(t)) = Len(net.ts)
             THEN LET o == OpenInds(net, t)
                  IN (IF \A v \in Nodes(t) : IsLeaf(t, v) => xs[v] = o[v] THEN {} ELSE {"leaf-inds"})
                     \cup (IF \A v \in Nodes(t) : ~IsLeaf(t, v) => xs[v] = o[v] THEN {} ELSE {"open-inds"})
             ELSE {"inds-length"})

\* All pairs of contracted tensors share an index
AllShare(t, xs) == \A v \in Nodes(t) : IsLeaf(t, v) \/ xs[t.c1[v]] \cap xs[t.c2[v]] # {}

\* Cost of the contraction at v (all indices taking part, and the slices), and of the tree
NodeCost(m, t, xs, sl, v) == Size(m, xs[t.c1[v]] \cup xs[t.c2[v]] \cup sl)
BNodeCost(m, t, xs, sl, v) == BSize(m, xs[t.c1[v]] \cup xs[t.c2[v]] \cup sl)
Inner(t) == SetToSeq({v \in Nodes(t) : ~IsLeaf(t, v)})
Cost(m, t, xs, sl) == FoldLeft(LAMBDA a, v : a + NodeCost(m, t, xs, sl, v), 0, Inner(t))
BCost(m, t, xs, sl) == FoldLeft(LAMBDA a, v : BAdd(a, BNodeCost(m, t, xs, sl, v)), BZero, Inner(t))
=============================================================================
