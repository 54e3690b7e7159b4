----------------------------- MODULE PathTrace ------------------------------
(* Contraction trees built from paths, and paths read from trees (C09).     *)
(* A case: [net, path, hasout, refused, t, xs, dims, root, all, width,      *)
(*          back, order, again |-> [t, xs], steps |-> <<[t, path, xs]>>]    *)
(* steps: the tree after exchanges (or pickling), its path, and the index   *)
(* sets of the tree built from this path again (in its own numbering).      *)
EXTENDS Paths, TraceBase

Tree(q) == [par |-> q.par, c1 |-> q.c1, c2 |-> q.c2]
SS(q) == [v \in DOMAIN q |-> S(q[v])]

\* Only the touched tensors count
SubNet(c, used) ==
  LET pos == Sorted(used)
      ts == [v \in DOMAIN pos |-> S(c.net.ts[pos[v]])]
  IN Closed([ts |-> ts, dims |-> c.net.dims, out |-> S(c.net.out)])
HasHyper(net) == \E x \in AllInds(net) : Cardinality({v \in Tensors(net) : x \in net.ts[v]}) > 2

\* Children before parents, every node once
Postorder(t, q) ==
  /\ Len(q) = Len(t.par) /\ S(q) = Nodes(t)
  /\ \A a, b \in DOMAIN q : (q[b] \in Kids(t, q[a])) => b < a

PathOf(n, t, pos, path) == IsPath(n, path) /\ Contractions(n, path) = TreeContractions(t, pos)

StepClauses(c, pos, s) ==
  LET t == Tree(s.t)
      n == Len(c.net.ts)
  IN IF ~IsTree(t) THEN {"C09:step-tree"}
     ELSE IF ~PathOf(n, t, pos, s.path) THEN {"C09:step-path"}
     ELSE LET u == Tree(s.again)
          IN IF CTreeClauses(SubNet(c, S(pos)), u, SS(s.again.xs)) # {} THEN {"C09:step-again"}
             ELSE IF TreeContractions(u, pos) # TreeContractions(t, pos) THEN {"C09:step-again-tree"} ELSE {}

Clauses(c) ==
  LET n == Len(c.net.ts)
      used == Used(n, c.path)
      \* the touched tensors end up in one tensor
      one == used \in S(Interpret(n, c.path).list)
      pos == Sorted(used)
      net == SubNet(c, used)
      t == Tree(c.t)
      xs == SS(c.xs)
  IN IF c.error # "" THEN {"C09:error"}
     ELSE IF c.refused THEN (IF (~c.hasout /\ HasHyper(net)) \/ ~one THEN {} ELSE {"C09:refused"})
     ELSE IF (~c.hasout /\ HasHyper(net)) \/ ~one THEN {"C09:not-refused"}
     ELSE LET cl == CTreeClauses(net, t, xs)
          IN IF cl # {} THEN {"C09:" \o x : x \in cl}
             ELSE (IF TreeContractions(t, pos) = Contractions(n, c.path) THEN {} ELSE {"C09:contractions"})
                  \cup (IF S(c.root) = xs[Len(t.par)] /\ S(c.all) = AllInds(net) THEN {} ELSE {"C09:views"})
                  \cup (IF \A x \in AllInds(net) : c.dims[x] = c.net.dims[x] THEN {} ELSE {"C09:dims"})
                  \cup (IF \E v \in Nodes(t) : /\ c.width = Prod(xs[v], net.dims)
                                               /\ \A u \in Nodes(t) : Prod(xs[u], net.dims) <= c.width
                        THEN {} ELSE {"C09:max-width"})
                  \cup (IF Postorder(t, c.order) THEN {} ELSE {"C09:traverse"})
                  \cup (IF c.same THEN {} ELSE {"C09:pickle"})
                  \cup UNION {StepClauses(c, pos, c.steps[j]) : j \in DOMAIN c.steps}

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
