------------------------------- MODULE Anneal -------------------------------
(* Simulated annealing as the top-level optimizers are asked for it (C32).  *)
(* Every run anneals every component of at least two tensors separately:    *)
(* one optimizer, which starts from some contraction and is updated once    *)
(* per inverse temperature.  The run reports the cheapest contraction.      *)
(*                                                                          *)
(* A request: [range |-> BOOLEAN, b0, b1, n, list, u]                       *)
(*   range: n temperatures interpolated between b0 and b1 (fixed point, the *)
(*   last one may or may not be b1); otherwise the first n of list          *)
(*   u: the slices are updated with every u-th update (0: there are none)   *)
(* An optimizer: [k |-> updates so far, first |-> the first one with an     *)
(*   update of the slices (0: none), ends |-> conventions about the last    *)
(*   temperature which are still possible, best |-> cheapest so far]        *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Dist(a, b) == IF a < b THEN b - a ELSE a - b

Total(req) == IF req.range THEN req.n ELSE Min2(req.n, Len(req.list))

\* Interpolation in m equal steps
At(req, m, k) == req.b0 + ((k - 1) * (req.b1 - req.b0)) \div m
Conventions(req) == IF req.range THEN {req.n, req.n - 1} \ {0} ELSE {}

Fresh(req, cost) == [k |-> 0, first |-> 0, ends |-> Conventions(req), best |-> cost]

Possible(req, s, beta, tol) == {m \in s.ends : Dist(beta, At(req, m, s.k + 1)) <= tol}

\* May the next update of the optimizer s use this temperature, and update the slices or not?
HotOK(req, s, beta, tol) ==
  IF req.range THEN Possible(req, s, beta, tol) # {} ELSE s.k < Len(req.list) /\ Dist(beta, req.list[s.k + 1]) <= tol
SliceOK(req, s, reslice) ==
  LET k == s.k + 1
  IN IF req.u = 0 THEN ~reslice
     ELSE IF s.first = 0 THEN reslice \/ k < req.u
     ELSE reslice <=> (k - s.first) % req.u = 0

Updated(req, s, beta, tol, reslice, cost) ==
  [k |-> s.k + 1, first |-> IF s.first = 0 /\ reslice THEN s.k + 1 ELSE s.first,
   ends |-> IF req.range THEN Possible(req, s, beta, tol) ELSE {}, best |-> Min2(s.best, cost)]

Done(req, s) == s.k = Total(req)

\* The same numbers the same number of times
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A i \in DOMAIN p : Cardinality({j \in DOMAIN p : p[j] = p[i]}) = Cardinality({j \in DOMAIN q : q[j] = p[i]})
=============================================================================
