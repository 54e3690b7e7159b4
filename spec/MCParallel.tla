----------------------------- MODULE MCParallel -----------------------------
(* All schedules of a parallel call.                                         *)
EXTENDS Parallel, TLC
CONSTANTS N, Jobs

VARIABLES s, fate
\* fate: what each task does when it is not told to stop: "end", "fail" or "wait" (until it is told)
vars == <<s, fate>>

Init == /\ \E timed \in BOOLEAN : s = Begin(N, timed)
        /\ fate \in [1..N -> {"end", "fail", "wait"}]
        /\ (\E t \in 1..N : fate[t] = "wait") => s.timer = "armed"
Step(u) == s' = u /\ UNCHANGED fate

StartT == \E t \in 1..N : CanStart(s, t, Jobs) /\ Step(Start(s, t))
\* What a task does to its slot is its own number
Work(t) == CanWork(s, t) /\ s.slot[t] < 1 /\ Step(Write(s, t, s.slot[t] + 1))
End(t) == /\ CanWork(s, t)
          /\ IF fate[t] = "wait" /\ ~s.stop[t] THEN FALSE
             ELSE IF fate[t] = "fail" THEN Step(Fail(s, t)) ELSE Step(Done(s, t, t + 10))
FireT == \E t \in 1..N : CanFire(s) /\ (\A r \in 1..(t - 1) : s.stop[r]) /\ ~s.stop[t] /\ Step(Fire(s, t))
ReturnT == CanReturn(s) /\ Step(Return(s))
RaiseT == CanRaise(s) /\ Step(Raise(s))
InterruptT == CanInterrupt(s) /\ Step(Interrupt(s))
CloseT == CanClose(s) /\ Step(Close(s))
Next == StartT \/ (\E t \in 1..N : Work(t) \/ End(t)) \/ FireT \/ ReturnT \/ RaiseT \/ InterruptT \/ CloseT

Fair == /\ WF_vars(StartT) /\ WF_vars(FireT) /\ WF_vars(ReturnT) /\ WF_vars(RaiseT) /\ WF_vars(CloseT)
        /\ \A t \in 1..N : WF_vars(End(t))
Spec == Init /\ [][Next]_vars /\ Fair

\* One result per task, in the order of the tasks
Results == s.how = "returned" => s.res = [t \in 1..N |-> t + 10]
\* Results only if everything is done; errors only if something failed
Verdict == /\ s.how = "returned" => In(s, "done") = 1..N
           /\ s.how = "raised" => In(s, "failed") # {}
\* Nothing outlives the call
Nothing == s.call = "over" => ~s.mem /\ s.timer = "off" /\ In(s, "running") \cup In(s, "queued") = {}
Bounded == Cardinality(In(s, "running")) <= Jobs
\* Nobody is told to stop without reason, and nobody works on memory which is gone
Stops == (\E t \in 1..N : s.stop[t]) => s.timer # "armed"
Memory == In(s, "running") # {} => s.mem
Ends == <>(s.call = "over")
\* When the timer has fired, every task is told, unless the call ends before
Told == \A t \in 1..N : (s.timer = "fired") ~> (s.stop[t] \/ s.call # "running")
=============================================================================
