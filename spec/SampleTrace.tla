---------------------------- MODULE SampleTrace -----------------------------
(* Recorded samplings (C25).  c: [n, gates, K, refused, kind, n_samples,    *)
(* probs |-> for every bitstring (qubit 1 most significant) its probability *)
(* in units of 2^-K / 8192 (kind "exact"), counts |-> how often it was      *)
(* sampled (kind "counts"), order |-> the qubits as reported, want |-> as   *)
(* requested (<<>>: not)]                                                   *)
EXTENDS Sampling, TraceBase

Abs(x) == IF x < 0 THEN -x ELSE x
Matches(c, gates) ==
  LET p == Target(c.n, gates)
      tol == 2 + (2 ^ c.K * ZF) \div 2000
  IN IF c.kind = "exact"
     THEN Len(c.probs) = Len(p) /\ \A s \in DOMAIN p : Abs(ZRe(p[s]) - c.probs[s]) <= tol
     ELSE /\ Len(c.counts) = Len(p)
          /\ \A s \in DOMAIN p :
               LET want == (c.samples * (ZRe(p[s]) \div (2 ^ c.K))) \div ZF
                   dev == Abs(c.counts[s] - want)
               IN /\ p[s] = ZZero => c.counts[s] = 0
                  /\ dev <= 9 \/ (dev - 9) * (dev - 9) <= 49 * (want + 1)
Reversed(gates) == [j \in DOMAIN gates |-> [gates[j] EXCEPT !.q = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]]]
Total(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE LET ok == Samplable(c.gates) /\ c.badorder = FALSE
       IN IF ok = c.refused THEN {IF ok THEN "refused" ELSE "accepted"}
          ELSE IF ~ok THEN {}
          ELSE Clause(Len(c.order) = c.n /\ S(c.order) = 1..c.n, "qubits")
               \cup Clause(c.want = <<>> \/ c.order = c.want, "qubit-order")
               \cup (IF c.kind = "counts" THEN Clause(Total(c.counts) = c.samples, "number-of-samples") ELSE {})
               \cup Clause(c.same, "seed")
               \cup (IF Matches(c, c.gates) THEN {} ELSE IF c.rev /\ Matches(c, Reversed(c.gates)) THEN {"qiskit-qubit-order"} ELSE {"distribution"})

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
