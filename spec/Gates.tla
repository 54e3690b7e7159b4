------------------------------- MODULE Gates --------------------------------
(* Comparing gates: two gates commute if applying them in either order is   *)
(* the same map of all their qubits; they are the same if they have the     *)
(* same qubits and equal maps up to a factor.                               *)
EXTENDS Circuit

El(q) == {q[j] : j \in DOMAIN q}
GateOk(g) == /\ Len(g.q) > 0 /\ Cardinality(El(g.q)) = Len(g.q)
             /\ Len(g.m) = 2 ^ Len(g.q) /\ \A r \in DOMAIN g.m : Len(g.m[r]) = Len(g.m)
\* The qubits of both, numbered from 1
Both(g, h) == LET q == g.q \o SelectSeq(h.q, LAMBDA x : x \notin El(g.q))
              IN [n |-> Len(q), at |-> [x \in El(q) |-> CHOOSE j \in DOMAIN q : q[j] = x]]
On(b, g) == [g EXCEPT !.q = [j \in DOMAIN @ |-> b.at[@[j]]]]
BasisState(n, a) == [s \in 1..(2 ^ n) |-> IF s = a THEN ZOne ELSE ZZero]
\* Columns of the map of a sequence of gates over n qubits, one after the other
Map(n, gs) == FoldLeft(LAMBDA x, a : x \o Run(n, BasisState(n, a), gs), <<>>, [a \in 1..(2 ^ n) |-> a])

Shares(g, h) == El(g.q) \cap El(h.q) # {}
Commutes(g, h) == LET b == Both(g, h)
                      x == On(b, g)
                      y == On(b, h)
                  IN Map(b.n, <<x, y>>) = Map(b.n, <<y, x>>)
\* p = f q for a factor f other than zero
Proportional(p, q) ==
  LET j == CHOOSE x \in DOMAIN p : p[x] # ZZero
  IN /\ \A x \in DOMAIN p : (p[x] = ZZero) = (q[x] = ZZero)
     /\ \A x \in DOMAIN p : ZMul(p[x], q[j]) = ZMul(p[j], q[x])
SameGate(g, h) == /\ El(g.q) = El(h.q)
                  /\ LET b == Both(g, h) IN Proportional(Map(b.n, <<On(b, g)>>), Map(b.n, <<On(b, h)>>))
=============================================================================
