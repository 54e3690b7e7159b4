----------------------------- MODULE TreeTrace ------------------------------
(* What the tree types accept, and what exchanges do to them.               *)
(* Cases:                                                                   *)
(*  "domain"   every list of n nodes was tried: the accepted ones           *)
(*  "list"     a list of nodes with the answer                              *)
(*  "ctree"    a tree with index sets, dimensions, and the answer            *)
(*  "all"      [n, trees]: the trees used below; have to be all of them     *)
(*  "swap"     a history of exchanges, [t, ev |-> <<[e, t, back]>>]         *)
EXTENDS CTree, TraceBase

VARIABLES i, k, st
vars == <<i, k, st>>

\* Lists of nodes as given to the code: links from 1, 0 = none, and anything else is
\* outside of the list
T(q) == [par |-> q[1], c1 |-> q[2], c2 |-> q[3]]

\* The lists of 3 nodes whose nodes have either both children or none
Pairs(n) == {<<0, 0>>} \cup ((1..n) \X (1..n))
Domain3 == {[par |-> <<a, b, c>>, c1 |-> <<x[1], y[1], z[1]>>, c2 |-> <<x[2], y[2], z[2]>>] :
              a \in 0..3, b \in 0..3, c \in 0..3, x \in Pairs(3), y \in Pairs(3), z \in Pairs(3)}

\* All trees with n leaves
Inner2(n) == {p \in (1..(2 * n - 2)) \X (1..(2 * n - 2)) : p[1] # p[2]}
AllTrees(n) ==
  {u \in {LET par(v) == IF \E j \in (n + 1)..(2 * n - 1) : v \in {f[j][1], f[j][2]}
                        THEN CHOOSE j \in (n + 1)..(2 * n - 1) : v \in {f[j][1], f[j][2]} ELSE 0
          IN [par |-> [v \in 1..(2 * n - 1) |-> par(v)],
              c1 |-> [v \in 1..(2 * n - 1) |-> IF v <= n THEN 0 ELSE f[v][1]],
              c2 |-> [v \in 1..(2 * n - 1) |-> IF v <= n THEN 0 ELSE f[v][2]]] :
            f \in [(n + 1)..(2 * n - 1) -> Inner2(n)]} : IsTree(u)}

\* A contraction tree: a tree, the right number of positive dimensions, and every inner
\* node keeps what only one child has, keeps or drops what both have, and has nothing else
CTreeOK(t, xs, ndims, positive, share, ninds) ==
  /\ IsTree(t)
  /\ Len(xs) = Len(t.par)
  /\ ndims = -1 \/ ndims = ninds
  /\ positive
  /\ \A v \in Nodes(t) : IsLeaf(t, v) \/
       LET x == xs[t.c1[v]]
           y == xs[t.c2[v]]
       IN /\ ((x \cup y) \ (x \cap y)) \subseteq xs[v]
          /\ xs[v] \subseteq (x \cup y)
          /\ share => x \cap y # {}

Static(c) ==
  CASE c.what = "domain" ->
         IF {T(q) : q \in S(c.accepted)} = {t \in Domain3 : IsTree(t)} THEN {} ELSE {"C10:tree-domain"}
    [] c.what = "list" ->
         IF IsTree(T(c.t)) = c.ok THEN {} ELSE {IF c.ok THEN "C10:tree-accepted" ELSE "C10:tree-refused"}
    [] c.what = "ctree" ->
         IF CTreeOK(T(c.t), [v \in DOMAIN c.xs |-> S(c.xs[v])], c.ndims, c.positive, c.share, c.ninds) = c.ok
         THEN {} ELSE {IF c.ok THEN "C10:ctree-accepted" ELSE "C10:ctree-refused"}
    [] c.what = "all" ->
         IF {T(q) : q \in S(c.trees)} = AllTrees(c.n) THEN {} ELSE {"C11:not-all-trees"}
    [] c.what = "error" -> {"C11:error"}
    [] OTHER -> {}

SwapClauses(t, e) ==
  LET u == T(e.t)
      can == CanExchange(t, e.e)
      w == Exchange(t, e.e)
      p == t.par[e.e]
  IN IF e.raised THEN {"C11:error"}
     ELSE IF ~can THEN (IF u = t THEN {} ELSE {"C11:not-refused"})
     ELSE IF ~IsTree(u) THEN {"C11:invalid"}
     ELSE (IF SameTree(u, w) THEN {} ELSE {"C11:exchange"})
          \cup (IF \A v \in Nodes(t) \ {p, t.par[p]} : u.c1[v] = t.c1[v] /\ u.c2[v] = t.c2[v] THEN {} ELSE {"C11:moved"})
          \cup (IF T(e.back) = t THEN {} ELSE {"C11:back"})

Init == i = 0 /\ k = 0 /\ st = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE IF Cases[i].what # "swap" THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1 /\ k' = 0
           /\ Report(i + 1, 0, Static(Cases[i + 1]))
           /\ st' = IF Cases[i + 1].what = "swap" THEN T(Cases[i + 1].t) ELSE <<>>
Event == /\ i > 0
         /\ Cases[i].what = "swap"
         /\ k < Len(Cases[i].ev)
         /\ i' = i /\ k' = k + 1
         /\ LET e == Cases[i].ev[k + 1]
            IN /\ Report(i, k + 1, SwapClauses(st, e))
               /\ st' = T(e.t)
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
