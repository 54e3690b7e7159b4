--------------------------- MODULE GenerateTrace ---------------------------
(* Recorded random networks, components and judged trees (C30).             *)
EXTENDS Generate, CTree, TraceBase

\* What a tree has to agree with, each if given: index sets of the leaves, dimensions, open
\* indices of the root, number of times that every index is met
TreeAgrees(c) ==
  LET t == [par |-> c.t[1], c1 |-> c.t[2], c2 |-> c.t[3]]
      xs == [v \in DOMAIN c.xs |-> S(c.xs[v])]
      inner == {v \in Nodes(t) : ~IsLeaf(t, v)}
      meets(x) == Cardinality({v \in inner : x \in xs[t.c1[v]] \cap xs[t.c2[v]]}) + (IF x \in xs[Len(t.par)] THEN 1 ELSE 0)
      all == UNION {xs[v] : v \in Nodes(t)}
  IN /\ "ts" \in S(c.given) => [v \in 1..Cardinality(Leaves(t)) |-> xs[v]] = [v \in DOMAIN c.ts |-> S(c.ts[v])]
     /\ "dims" \in S(c.given) => \A x \in all : c.dims[x] = c.d[x]
     /\ "share" \in S(c.given) => \A v \in inner : xs[t.c1[v]] \cap xs[t.c2[v]] # {}
     /\ "out" \in S(c.given) => xs[Len(t.par)] = S(c.out)
     /\ "hyper" \in S(c.given) => \A x \in all : meets(x) > 0 => c.hyper[x] = meets(x)

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "request" -> RequestClauses(c)
         [] c.kind = "components" -> ComponentsClauses(c)
         [] c.kind = "names" -> Clause(Len(c.names) = c.n /\ Cardinality(S(c.names)) = c.n, "names")
         [] c.kind = "tree" -> Clause(TreeAgrees(c) = c.got, IF c.got THEN "tree-accepted" ELSE "tree-refused")
                               \cup Clause(c.untouched, "tree-changed")

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
