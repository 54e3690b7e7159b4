----------------------------- MODULE TraceBase -----------------------------
(* Reading recorded executions and reporting verdicts.                      *)
(* A trace module walks through Cases; for every event it computes the set  *)
(* of clauses of the specification which the recorded execution violates.   *)
(* Verdicts are total: a violating event is reported and the walk goes on.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

Report(c, k, bad) ==
  IF bad = {} THEN TRUE ELSE PrintT(ToJson([c |-> c, k |-> k, bad |-> bad]))

ReportDone == PrintT(ToJson([done |-> Len(Cases), n |-> TLCGet("generated")]))

\* JSON arrays are sequences; most of them denote sets
S(q) == {q[i] : i \in DOMAIN q}

\* Clause(b, name): the name if b does not hold
Clause(b, name) == IF b THEN {} ELSE {name}
=============================================================================
