----------------------------- MODULE GateTrace ------------------------------
(* Recorded comparisons of gates (C28).  c: [a, b |-> [q, m], refused |->   *)
(* [commute, overlap, same], got |-> likewise (overlap: commutation without *)
(* multiplying the matrices)]                                               *)
EXTENDS Gates, TraceBase

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE LET ok == GateOk(c.a) /\ GateOk(c.b)
       IN UNION {IF ok = c.refused[f] THEN {(IF ok THEN "refused-" ELSE "accepted-") \o f} ELSE {} : f \in DOMAIN c.refused}
          \cup (IF ~ok \/ \E f \in DOMAIN c.refused : c.refused[f] THEN {}
                ELSE Clause(c.got.commute = Commutes(c.a, c.b), "commute")
                     \cup Clause(c.got.overlap = ~Shares(c.a, c.b), "overlap")
                     \cup Clause(c.got.same = SameGate(c.a, c.b), "same"))

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
