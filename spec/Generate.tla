----------------------------- MODULE Generate ------------------------------
(* Random networks: cc components, each with n tensors, m indices joining k *)
(* tensors each and o output indices.  The output counts as one of the      *)
(* tensors joined: an output index is on one tensor or, the larger half of  *)
(* them when k > 2, on k - 1.                                               *)
EXTENDS TensorNet

Possible(n, m, k, o) == n >= k /\ m - o >= n + 1 - k
ManyOut(k, o) == IF k <= 2 THEN 0 ELSE (o + 1) \div 2
On(ts, x) == {v \in DOMAIN ts : \E j \in DOMAIN ts[v] : ts[v][j] = x}
NetOf(ts, out) == [ts |-> [v \in DOMAIN ts |-> {ts[v][j] : j \in DOMAIN ts[v]}], out |-> out]

\* One component with tensors ts (sequences of indices)
OneShape(ts, out, n, m, k, o) ==
  LET inds == UNION {{ts[v][j] : j \in DOMAIN ts[v]} : v \in DOMAIN ts}
  IN /\ Len(ts) = n
     /\ Cardinality(inds) = m
     /\ Cardinality(out) = o
     /\ out \subseteq inds
     /\ \A x \in inds \ out : Cardinality(On(ts, x)) = k
     /\ IF k <= 2 THEN \A x \in out : Cardinality(On(ts, x)) = 1
        ELSE /\ \A x \in out : Cardinality(On(ts, x)) \in {1, k - 1}
             /\ Cardinality({x \in out : Cardinality(On(ts, x)) = k - 1}) = ManyOut(k, o)

\* The whole network; without joined tensors (k = 1) every tensor is a component
Shape(ts, out, n, m, k, o, cc) ==
  LET net == NetOf(ts, out)
      comps == Components(net)
  IN /\ Len(ts) = n * cc
     /\ \A v \in DOMAIN ts : Cardinality(net.ts[v]) = Len(ts[v])
     /\ Cardinality({ts[v] : v \in DOMAIN ts}) = Len(ts)
     /\ out \subseteq AllInds(net)
     /\ IF k = 1 THEN OneShape(ts, out, n * cc, m * cc, k, o * cc)
        ELSE /\ Cardinality(comps) = cc
             /\ \A K \in comps :
                  LET q == SetToSeq(K)
                      mine == UNION {net.ts[v] : v \in K}
                  IN OneShape([j \in DOMAIN q |-> ts[q[j]]], out \cap mine, n, m, k, o)

\* The answer to a request: a network of this shape or, when the indices are too few or
\* no distinct tensors were found, a refusal
RequestClauses(r) ==
  IF r.refused THEN IF Possible(r.n, r.m, r.k, r.o) /\ r.sure THEN {"refused"} ELSE {}
  ELSE (IF Possible(r.n, r.m, r.k, r.o) THEN {} ELSE {"accepted"})
       \cup (IF Shape(r.ts, {r.out[j] : j \in DOMAIN r.out}, r.n, r.m, r.k, r.o, r.cc) THEN {} ELSE {"shape"})
       \cup (IF r.again THEN {} ELSE {"not-repeatable"})

\* Components, as lists of positions of the tensors with indices, in order
ComponentsClauses(c) ==
  LET ts == SelectSeq(c.ts, LAMBDA q : q # <<>>)
      net == NetOf(ts, {})
      got == [j \in DOMAIN c.got |-> {c.got[j][u] : u \in DOMAIN c.got[j]}]
  IN (IF {got[j] : j \in DOMAIN got} = Components(net) /\ Len(got) = Cardinality(Components(net)) THEN {} ELSE {"components"})
     \cup (IF /\ \A j \in DOMAIN c.got : c.got[j] = SetToSortSeq(got[j], <)
              /\ \A j \in 1..(Len(c.got) - 1) : c.got[j] # <<>> /\ c.got[j + 1] # <<>> /\ c.got[j][1] < c.got[j + 1][1]
           THEN {} ELSE {"order"})
=============================================================================
