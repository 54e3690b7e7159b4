------------------------------ MODULE Parallel ------------------------------
(* A parallel call as a state machine: tasks, slots, stop flags, the timer,  *)
(* shared memory, and the ways in which the call ends.                       *)
(*                                                                           *)
(* A state is a record                                                       *)
(*   st     task -> "queued", "running", "done", "failed" or "killed"        *)
(*   stop   task -> whether the task is told to stop                         *)
(*   slot   task -> what the task has in its slot of a shared buffer         *)
(*   tok    task -> what the task has returned                               *)
(*   timer  "off", "armed" or "fired"                                        *)
(*   call   "running", "closing" or "over";  how: "", "returned", "raised"   *)
(*   mem    whether the shared memory exists                                 *)
EXTENDS Integers, Sequences, FiniteSets

Begin(n, timed) ==
  [st |-> [t \in 1..n |-> "queued"], stop |-> [t \in 1..n |-> FALSE], slot |-> [t \in 1..n |-> 0],
   tok |-> [t \in 1..n |-> 0], timer |-> IF timed THEN "armed" ELSE "off", call |-> "running", how |-> "",
   res |-> <<>>, mem |-> TRUE]

In(s, x) == {t \in DOMAIN s.st : s.st[t] = x}

\* A task starts when there is a worker for it; one worker takes the tasks in turn
CanStart(s, t, jobs) ==
  /\ s.call = "running" /\ s.st[t] = "queued"
  /\ Cardinality(In(s, "running")) < jobs
  /\ jobs = 1 => \A r \in 1..(t - 1) : s.st[r] = "done"
Start(s, t) == [s EXCEPT !.st[t] = "running"]

\* A task works on its slots only
CanWork(s, t) == s.st[t] = "running"
Write(s, t, v) == [s EXCEPT !.slot[t] = v]

Done(s, t, tok) == [s EXCEPT !.st[t] = "done", !.tok[t] = tok]
Fail(s, t) == [s EXCEPT !.st[t] = "failed"]

\* The timer tells all the tasks, one after the other
CanFire(s) == s.timer \in {"armed", "fired"} /\ s.call = "running" /\ \E t \in DOMAIN s.stop : ~s.stop[t]
Fire(s, t) == [s EXCEPT !.timer = "fired", !.stop[t] = TRUE]

\* All done: the call has the results in the order of the tasks
CanReturn(s) == s.call = "running" /\ In(s, "done") = DOMAIN s.st
Return(s) == [s EXCEPT !.call = "closing", !.how = "returned", !.res = s.tok]

\* Something failed: the others do not go on
CanRaise(s) == s.call = "running" /\ In(s, "failed") # {}
Raise(s) == [s EXCEPT !.call = "closing", !.how = "raised",
                      !.st = [t \in DOMAIN s.st |-> IF s.st[t] \in {"queued", "running"} THEN "killed" ELSE s.st[t]]]

\* The call is interrupted
CanInterrupt(s) == s.call = "running"
Interrupt(s) == [Raise(s) EXCEPT !.how = "interrupted"]

\* Cleaning up
CanClose(s) == s.call = "closing"
Close(s) == [s EXCEPT !.call = "over", !.timer = "off", !.mem = FALSE]
=============================================================================
