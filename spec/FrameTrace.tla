----------------------------- MODULE FrameTrace -----------------------------
(* Recorded programs (C34).  A case: [ev |-> <<[op, r, what, kinds, vals    *)
(* |-> ranks of the values of the whole store after the event]>>]           *)
EXTENDS Frame, TraceBase
VARIABLES i, k, st
vars == <<i, k, st>>

EventClauses(e) ==
  IF e.op = "error" THEN {"error"} ELSE FrameClauses(e.kinds, e.op, e.r, st, e.vals)

Init == i = 0 /\ k = 0 /\ st = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1 /\ k' = 0 /\ st' = <<>>
Event == /\ i > 0 /\ k < Len(Cases[i].ev)
         /\ i' = i /\ k' = k + 1
         /\ LET e == Cases[i].ev[k + 1]
            IN /\ Report(i, k + 1, EventClauses(e))
               /\ st' = IF e.op = "error" THEN st ELSE e.vals
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
