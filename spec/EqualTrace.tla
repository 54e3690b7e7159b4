----------------------------- MODULE EqualTrace -----------------------------
(* Recorded lives of two values (optimizers, contraction trees), C33.       *)
(* A case: [kind, ev |-> <<[op, a, b |-> parts as ranks, r |-> answers] |   *)
(*                         [op |-> "error", what]>>]                        *)
EXTENDS Equal, TraceBase
VARIABLES i, k, st
vars == <<i, k, st>>

EventClauses(e) ==
  IF e.op = "error" THEN {"error"}
  ELSE AnswerClauses(e.a, e.b, e.r)
       \cup (IF e.op = "start" THEN {} ELSE StepClauses(e.op, st[1], st[2], e.a, e.b))

Init == i = 0 /\ k = 0 /\ st = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1 /\ k' = 0 /\ st' = <<>>
Event == /\ i > 0 /\ k < Len(Cases[i].ev)
         /\ i' = i /\ k' = k + 1
         /\ LET e == Cases[i].ev[k + 1]
            IN /\ Report(i, k + 1, EventClauses(e))
               /\ st' = IF e.op = "error" THEN st ELSE <<e.a, e.b>>
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
