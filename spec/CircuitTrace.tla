---------------------------- MODULE CircuitTrace ----------------------------
(* Tensor networks loaded from circuits (C17).                              *)
(* c: [n, gates |-> <<[q, m]>>, ini, fin, K, outs, values, p, norm, error,  *)
(*     rev |-> BOOLEAN, type, types]                                        *)
(* type: the data type asked for ("" if none), types: those of the arrays.  *)
(* values: a_x conj(a_p) 2^K in fixed point for every assignment x of the   *)
(* open indices (inputs first), a_p one of the largest; norm: |a_x|^2 2^K.  *)
(* K counts the factors 1/sqrt(2) of all gates and states.                  *)
EXTENDS Circuit, TraceBase

Abs(x) == IF x < 0 THEN -x ELSE x
Matches(c, gates) ==
  LET e == Elements(c.n, gates, c.ini, c.fin)
      tol == 2 + (2 ^ c.K * ZF) \div 2000
      near(z, v) == Abs(ZRe(z) - v[1]) <= tol /\ Abs(ZIm(z) - v[2]) <= tol
  IN Len(e) = Len(c.values) /\ \A x \in DOMAIN e :
        /\ near(ZMul(e[x], ZConj(e[c.p])), c.values[x])
        /\ near(ZMul(e[x], ZConj(e[x])), <<c.norm[x], 0>>)
Reversed(gates) == [j \in DOMAIN gates |-> [gates[j] EXCEPT !.q = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]]]

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE IF c.badstate # c.refused THEN {IF c.badstate THEN "accepted" ELSE "refused"}
  ELSE IF c.badstate THEN {}
  ELSE (IF S(c.outs[1]) = S(OpenOf(c.ini)) /\ S(c.outs[2]) = S(OpenOf(c.fin)) /\ Len(c.outs[1]) = Cardinality(S(c.outs[1]))
        THEN {} ELSE {"open-indices"})
       \cup (IF c.type = "" \/ S(c.types) = {c.type} THEN {} ELSE {"type"})
       \cup (IF Matches(c, c.gates) THEN {} ELSE IF c.rev /\ Matches(c, Reversed(c.gates)) THEN {"qiskit-qubit-order"} ELSE {"value"})

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
