---------------------------- MODULE AnnealTrace ----------------------------
(* Recorded annealing runs against Anneal.  A case:                         *)
(*   [req, runs |-> requested number of runs, stopped |-> may stop early,   *)
(*    error, results |-> <<<<cost of each component which is contracted>>>>,*)
(*    ev |-> <<[op |-> "start", cost, seed] | [op |-> "update", o, beta,    *)
(*              reslice, cost] | [op |-> "end"]>>]                          *)
(* Costs and seeds are ranks.                                               *)
EXTENDS Anneal, TraceBase

Tol == 2
VARIABLES i, k, st
vars == <<i, k, st>>

EventClauses(c, e) ==
  CASE e.op = "start" -> {}
    [] e.op = "update" ->
         IF e.o \notin DOMAIN st.opts THEN {"unknown"}
         ELSE LET s == st.opts[e.o]
              IN IF Done(c.req, s) THEN {"too-many"}
                 ELSE Clause(HotOK(c.req, s, e.beta, Tol), "temperature") \cup Clause(SliceOK(c.req, s, e.reslice), "slices")
    [] e.op = "end" ->
         LET all == c.results
             n == IF all = <<>> THEN 0 ELSE Len(all[1])
             costs == [j \in 1..(n * Len(all)) |-> all[((j - 1) \div n) + 1][((j - 1) % n) + 1]]
             found == [j \in DOMAIN st.opts |-> st.opts[j].best]
         IN IF c.error # "" THEN {"error"}
            ELSE IF \E r \in DOMAIN all : Len(all[r]) # n THEN {"components"}
            ELSE Clause(c.stopped \/ Len(all) = c.runs, "runs")
                 \cup Clause(c.stopped \/ \A j \in DOMAIN st.opts : Done(c.req, st.opts[j]), "too-few")
                 \cup Clause(IF c.stopped THEN S(costs) \subseteq S(found) ELSE SameBag(costs, found), "best")
                 \cup Clause(n = 0 \/ c.stopped \/ Cardinality(st.seeds) >= c.runs, "independent")

NextState(c, e) ==
  CASE e.op = "start" -> [opts |-> Append(st.opts, Fresh(c.req, e.cost)), seeds |-> st.seeds \cup {e.seed}]
    [] e.op = "update" /\ e.o \in DOMAIN st.opts ->
         [st EXCEPT !.opts[e.o] = Updated(c.req, @, e.beta, Tol, e.reslice, e.cost)]
    [] OTHER -> st

Init == i = 0 /\ k = 0 /\ st = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1
           /\ k' = 0
           /\ st' = [opts |-> <<>>, seeds |-> {}]
Event == /\ i > 0
         /\ k < Len(Cases[i].ev)
         /\ i' = i
         /\ LET c == Cases[i]
                e == c.ev[k + 1]
                bad == EventClauses(c, e)
            IN /\ Report(i, k + 1, bad)
               /\ k' = IF bad = {} THEN k + 1 ELSE Len(c.ev)
               /\ st' = IF bad = {} THEN NextState(c, e) ELSE <<>>
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
