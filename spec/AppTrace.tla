------------------------------ MODULE AppTrace ------------------------------
(* Recorded calls of the top-level optimizer.                                *)
(*  "opt"     [net, m, finite, maxsize, nruns, results, order, again]        *)
(*              order: ranks of the reported costs; again: the same results  *)
(*              when called again with other numbers of workers              *)
(*  "longer"  [finite?, ranks]: for more and more steps, the sorted costs of *)
(*              the runs (ranks among all of them)                           *)
(*  "refuse"  [ok, want]                                                     *)
EXTENDS App, TraceBase

VARIABLES i, st
vars == <<i, st>>

SS(q) == [v \in DOMAIN q |-> S(q[v])]
ToNet(c) == Closed([ts |-> SS(c.net.ts), dims |-> c.net.dims, out |-> S(c.net.out)])
ToM(c) == [dims |-> c.net.dims, sparse |-> S(c.sparse), nproj |-> c.nproj]

Clauses(c) ==
  IF c.error # "" THEN {"C18:error"}
  ELSE CASE c.what = "opt" ->
         LET net == ToNet(c)
         IN (UNION {ResultClauses(net, ToM(c), c.finite, c.maxsize, c.results[j]) : j \in DOMAIN c.results})
            \cup Clause(Len(c.results) = c.nruns, "C18:number-of-runs")
            \cup Clause(\A j \in 1..(Len(c.order) - 1) : c.order[j] <= c.order[j + 1], "C18:order")
            \cup Clause(\A j \in DOMAIN c.again : c.again[j] = c.results, "C18:depends-on-workers")
            \cup Clause(c.same, "C18:another-network")
    [] c.what = "longer" ->
         Clause(\A j \in 1..(Len(c.ranks) - 1) : Len(c.ranks[j]) = Len(c.ranks[j + 1])
                  /\ \A x \in DOMAIN c.ranks[j] : c.ranks[j + 1][x] <= c.ranks[j][x], "C18:best-lost")
    [] c.what = "refuse" -> Clause(c.ok = c.want, "C18:refused")
    [] OTHER -> {"C18:unknown"}

Init == i = 0 /\ st = <<>>
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ st' = <<>>
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
