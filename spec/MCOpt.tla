------------------------------- MODULE MCOpt --------------------------------
(* Exhaustive exploration of the optimizers on small networks: every tree   *)
(* reachable by updates, for every choice of leaf, exchange, outcome and    *)
(* new slices.  Checks that what the updates compute locally (index set of  *)
(* the rotated node, cost change, slices) is what the definitions say.      *)
EXTENDS Opt, TLC

CONSTANTS Group,   \* which networks
          Finite,  \* with a maximum width
          Best     \* also follow the best state reached

N(ts, dims, out) == Closed([ts |-> ts, dims |-> dims, out |-> out])
Nets ==
  CASE Group = "small" ->
         << N(<<{1, 2}, {2, 3}, {3, 1}>>, <<2, 3, 5>>, {}),
            N(<<{1, 2}, {1, 3}, {1, 4}, {2, 3, 4}>>, <<2, 3, 2, 2>>, {}),
            N(<<{1}, {1, 2}, {2, 3}, {3, 4}>>, <<2, 3, 4, 2>>, {4}),
            N(<<{1, 2}, {1, 2}, {1, 3}, {1, 3}>>, <<2, 3, 2>>, {1}),
            N(<<{1}, {1}, {1}, {1}>>, <<3>>, {}),
            N(<<{1, 5}, {2}, {1, 3}, {2, 3, 4}>>, <<2, 2, 3, 2, 2>>, {4, 5}),
            N(<<{}, {1, 2}, {1}, {2, 3}>>, <<2, 2, 2>>, {3}) >>
    [] Group = "large" ->
         << N(<<{1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 1}>>, <<2, 2, 3, 2, 2>>, {3}),
            N(<<{1, 2}, {1, 3}, {1, 4}, {2, 3}, {4, 2}>>, <<2, 2, 2, 3>>, {1}),
            N(<<{1}, {1, 2}, {2, 3, 4}, {4}, {3, 5}>>, <<2, 2, 2, 2, 3>>, {5}) >>
    [] Group = "shared" ->
         << N(<<{1, 2}, {2, 3}, {3, 4}, {4, 1}>>, <<2, 3, 2, 2>>, {}),
            N(<<{1, 2}, {1, 3}, {1, 4}, {2, 3, 4}>>, <<2, 3, 2, 2>>, {2}) >>
    [] Group = "shared-large" ->
         << N(<<{1}, {1, 2}, {2, 3}, {3, 4}, {4}>>, <<2, 2, 3, 2>>, {}),
            N(<<{1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 1, 3}>>, <<2, 3, 2, 2, 2>>, {2}) >>
    [] Group = "three" ->
         << N(<<{1, 2}, {2, 3}, {3, 1}>>, <<2, 3, 5>>, {}),
            N(<<{1, 2}, {1, 2, 3}, {1, 3, 4}>>, <<2, 3, 2, 2>>, {1}),
            N(<<{1, 2, 4}, {1, 3}, {3, 4}>>, <<2, 3, 4, 2>>, {2}) >>

Sparse(k) == IF k % 2 = 0 THEN {1, 2} ELSE {}
Cf(k) == [m |-> [dims |-> Nets[k].dims, sparse |-> Sparse(k) \cap 1..Len(Nets[k].dims), nproj |-> 3],
          share |-> Group \in {"shared", "shared-large"}, finite |-> Finite, maxsize |-> 4, maxnew |-> IF Finite THEN 1 + (k % 2) ELSE 0,
          skip |-> IF k % 3 = 0 THEN {3} ELSE {}, big |-> FALSE]

\* The tree ((1 2) 3) 4 ...
Comb(n) ==
  [par |-> TLCEval([v \in 1..(2 * n - 1) |-> IF v = 2 * n - 1 THEN 0 ELSE IF v = 1 THEN n + 1
                                           ELSE IF v <= n THEN n + v - 1 ELSE v + 1]),
   c1 |-> TLCEval([v \in 1..(2 * n - 1) |-> IF v <= n THEN 0 ELSE IF v = n + 1 THEN 1 ELSE v - 1]),
   c2 |-> TLCEval([v \in 1..(2 * n - 1) |-> IF v <= n THEN 0 ELSE v - n + 1])]

VARIABLES k, s, b, last
vars == <<k, s, b, last>>
\* The order of children does not matter
MCView == <<k, s.t.par, s.sl, b, last.reslice>>

Start(n, cf, t) ==
  LET xs == TLCEval(OpenInds(n, t))
  IN {[t |-> t, xs |-> xs, sl |-> sl, tot |-> Cost(cf.m, t, xs, sl)] :
        sl \in IF cf.finite THEN Slicings(cf, t, xs) ELSE {{}}}

Init == /\ k \in DOMAIN Nets
        /\ s \in {q \in Start(Nets[k], Cf(k), Comb(Len(Nets[k].ts))) :
                    ~Cf(k).share \/ AllShare(q.t, q.xs)}
        /\ b = IF Best THEN s ELSE <<>>
        /\ last = [prev |-> s, reslice |-> FALSE]

Better(q) == IF Best /\ q.tot < b.tot THEN q ELSE b

Update ==
  /\ s' \in Sweeps(Cf(k), "any", s, NoTarget)
  /\ b' = Better(s')
  /\ last' = [prev |-> s, reslice |-> FALSE]

Reslice ==
  /\ Finite /\ s.sl # {}
  /\ \E q \in Start(Nets[k], Cf(k), s.t) : q.tot < s.tot /\ s' = q
  /\ b' = Better(s')
  /\ last' = [prev |-> s, reslice |-> TRUE]

Next == k' = k /\ (Update \/ Reslice)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The tree contracts exactly the network, with exactly the open indices
ValidTree == CTreeClauses(Nets[k], s.t, s.xs) = {}
\* The cost followed by differences is the one computed from scratch
ExactCost == s.tot = Cost(Cf(k).m, s.t, s.xs, s.sl)
\* Every tensor fits once slices are removed; skipped indices are not sliced
Fit == AllFit(Cf(k), s.t, s.xs, s.sl) /\ s.sl \cap Cf(k).skip = {}
Shared == Cf(k).share => AllShare(s.t, s.xs)
BestIsMin == Best => /\ b.tot <= s.tot
                     /\ CTreeClauses(Nets[k], b.t, b.xs) = {}
                     /\ b.tot = Cost(Cf(k).m, b.t, b.xs, b.sl)
                     /\ AllFit(Cf(k), b.t, b.xs, b.sl)
\* Slices only grow, by at most maxnew for each node on the way, unless re-sliced
Depth(t) == LET d[v \in Nodes(t)] == IF IsRoot(t, v) THEN 0 ELSE 1 + d[t.par[v]]
            IN Max({d[v] : v \in Nodes(t)})
SlicesGrow ==
  last.reslice \/ /\ last.prev.sl \subseteq s.sl
                  /\ Cardinality(s.sl \ last.prev.sl) <= Cf(k).maxnew * Depth(last.prev.t)
\* A move is refused only if it has a reason: with everything accepted and no width, some tree changes
Moves == (~Finite /\ Len(s.t.par) >= 5) =>
           \E q \in Sweeps(Cf(k), "base", s, NoTarget) : ~SameTree(q.t, s.t)
\* Greedy updates never increase the cost
GreedyDown == \A q \in Sweeps(Cf(k), "greedy", s, NoTarget) : q.tot <= s.tot
\* Exchanges are local and reversible
Reversible ==
  \A e \in {v \in Nodes(s.t) : CanExchange(s.t, v)} :
    LET p == s.t.par[e]
        c == Sibling(s.t, p)
        u == Exchange(s.t, e)
    IN /\ IsTree(u)
       /\ Leaves(u) = Leaves(s.t)
       /\ Exchange(u, c) = s.t
       /\ \A v \in Nodes(u) \ {e, c} : u.par[v] = s.t.par[v]
       /\ \A v \in Nodes(u) \ {p, s.t.par[p]} : u.c1[v] = s.t.c1[v] /\ u.c2[v] = s.t.c2[v]

\* Every tree can be reached (counted: the number of rooted binary trees over labelled
\* leaves, without restrictions); evaluated over the trees collected by the run
=============================================================================
