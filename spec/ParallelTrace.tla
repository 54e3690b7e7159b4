--------------------------- MODULE ParallelTrace ----------------------------
(* Recorded parallel calls and buffers.                                      *)
(*  "call"    [n, jobs, timed, us, args, ev]; us: timeout in microseconds     *)
(*  "buffer"  [init, ev |-> <<[e, p, v]>>]: reads and writes                  *)
EXTENDS Parallel, TraceBase

VARIABLES i, k, s
vars == <<i, k, s>>

First(c) == IF c.what = "call" THEN Begin(c.n, c.timed) ELSE c.init

\* What every task of the call is given: the t-th of every list
Given(c, t) == [j \in DOMAIN c.args |-> c.args[j][t]]

Known(c, e) == e.t \in 1..c.n

\* A task sees its stop flag: only after the time is up, and then for good.
\* The flag is set by the timer at some point between two observations.
Seen(c, e) ==
  Clause(e.stop \/ ~s.stop[e.t], "C19:stop-withdrawn")
  \cup Clause(~e.stop \/ s.stop[e.t] \/ (c.timed /\ e.us >= c.us), "C19:stopped-too-early")

CallClauses(c, e) ==
  CASE e.e = "start" ->
         IF ~Known(c, e) THEN {"C19:unknown-task"}
         ELSE Clause(CanStart(s, e.t, c.jobs), IF s.call = "running" THEN "C19:start" ELSE "C19:outlives-the-call")
              \cup Clause(e.a = Given(c, e.t), "C19:arguments")
              \cup Clause(\A j \in DOMAIN e.slots : e.slots[j] = 0, "C19:slot-not-fresh")
              \cup Seen(c, e)
    [] e.e = "slot" ->
         Clause(CanWork(s, e.t), "C19:not-running") \cup Clause(e.r = s.slot[e.t], "C19:slot-of-another-task")
    [] e.e = "see" -> Clause(CanWork(s, e.t), "C19:not-running") \cup Seen(c, e)
    [] e.e = "gaveup" -> {"C19:not-told-to-stop"}
    [] e.e \in {"done", "fail"} -> Clause(CanWork(s, e.t), "C19:not-running")
    [] e.e = "end" ->
         CASE e.how = "returned" ->
                Clause(CanReturn(s), "C19:returned-early") \cup Clause(e.res = s.tok, "C19:results")
           [] e.how = "raised" ->
                Clause(CanRaise(s), "C19:error") \cup Clause(e.by \in In(s, "failed"), "C19:error-of-no-task")
           [] e.how = "interrupted" -> Clause(c.interrupt, "C19:error")
           [] OTHER -> {"C19:error"}
    [] e.e = "after" ->
         Clause(e.memory = 0, "C19:memory-outlives-the-call") \cup Clause(e.threads = 0, "C19:thread-outlives-the-call")
         \cup Clause(~e.busy, "C19:task-outlives-the-call")
    [] OTHER -> {"C19:unknown-event"}

CallNext(c, e) ==
  CASE e.e = "start" -> IF Known(c, e) THEN [Start(s, e.t) EXCEPT !.stop[e.t] = e.stop] ELSE s
    [] e.e = "slot" -> Write(s, e.t, e.w)
    [] e.e = "see" -> IF e.stop THEN Fire(s, e.t) ELSE s
    [] e.e = "done" -> Done(s, e.t, e.tok)
    [] e.e = "fail" -> Fail(s, e.t)
    [] e.e = "end" -> IF e.how = "returned" THEN Return(s) ELSE Interrupt(s)
    [] OTHER -> s

\* A buffer is a list of fixed length
BufferClauses(c, e) ==
  CASE e.e = "get" -> IF e.p \in 0..(Len(s) - 1) THEN Clause(e.ok /\ e.v = s[e.p + 1], "C19:buffer-read")
                      ELSE Clause(~e.ok, "C19:buffer-range")
    [] e.e = "set" -> Clause(e.ok = (e.p \in 0..(Len(s) - 1)), "C19:buffer-range")
    [] e.e = "all" -> Clause(e.q = s, "C19:buffer-values")
    [] OTHER -> {"C19:buffer-error"}
BufferNext(c, e) ==
  IF e.e = "set" /\ e.ok /\ e.p \in 0..(Len(s) - 1) THEN [s EXCEPT ![e.p + 1] = e.v] ELSE s

Init == i = 0 /\ k = 0 /\ s = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1 /\ k' = 0
           /\ s' = First(Cases[i + 1])
Event == /\ i > 0
         /\ k < Len(Cases[i].ev)
         /\ i' = i /\ k' = k + 1
         /\ LET c == Cases[i]
                e == c.ev[k + 1]
            IN IF c.what = "call"
               THEN Report(i, k + 1, CallClauses(c, e)) /\ s' = CallNext(c, e)
               ELSE Report(i, k + 1, BufferClauses(c, e)) /\ s' = BufferNext(c, e)
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
