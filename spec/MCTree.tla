------------------------------- MODULE MCTree -------------------------------
(* All trees over n leaves, and all exchanges between them.                 *)
EXTENDS CTree, TLC
CONSTANT n

VARIABLE t
N == 2 * n - 1
Comb == [par |-> TLCEval([v \in 1..N |-> IF v = N THEN 0 ELSE IF v = 1 THEN n + 1 ELSE IF v <= n THEN n + v - 1 ELSE v + 1]),
         c1 |-> TLCEval([v \in 1..N |-> IF v <= n THEN 0 ELSE IF v = n + 1 THEN 1 ELSE v - 1]),
         c2 |-> TLCEval([v \in 1..N |-> IF v <= n THEN 0 ELSE v - n + 1])]
Init == t = Comb
Next == \E e \in Nodes(t) : CanExchange(t, e) /\ t' = Exchange(t, e)
Spec == Init /\ [][Next]_t
\* The order of children is irrelevant to which trees exist
TreeView == t.par

Valid == IsTree(t) /\ Leaves(t) = 1..n
Reversible ==
  \A e \in {v \in Nodes(t) : CanExchange(t, v)} :
    LET p == t.par[e]
        c == Sibling(t, p)
        u == Exchange(t, e)
    IN /\ Exchange(u, c) = t
       /\ ~SameTree(u, t)
       /\ \A v \in Nodes(u) \ {e, c} : u.par[v] = t.par[v]
       /\ \A v \in Nodes(u) \ {p, t.par[p]} : u.c1[v] = t.c1[v] /\ u.c2[v] = t.c2[v]
\* What a node has below it changes only for the parent
Local ==
  \A e \in {v \in Nodes(t) : CanExchange(t, v)} :
    \A v \in Nodes(t) \ {t.par[e]} : Below(Exchange(t, e))[v] = Below(t)[v]
=============================================================================
