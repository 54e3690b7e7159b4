-------------------------------- MODULE Opt ---------------------------------
(* The optimizers: leaf-to-root sweeps of sub-tree exchanges.               *)
(*                                                                          *)
(*        A          A        At every node B on the way from a leaf to the *)
(*       / \        / \       root: C is the sibling of B; one child E of B *)
(*      B   C  =>  B   E      is exchanged with C if the move is accepted.  *)
(*     / \        / \                                                       *)
(*    D   E      D   C                                                      *)
(*                                                                          *)
(* A configuration cf is a record                                           *)
(*   m        cost/width measures [dims, sparse, nproj]                     *)
(*   share    BOOLEAN: contracted tensors must share an index               *)
(*   finite   BOOLEAN: there is a maximum width                             *)
(*   maxsize  largest size allowed once slices are removed (finite)         *)
(*   maxnew   number of slices a move may add (finite)                      *)
(*   skip     indices never sliced (finite)                                 *)
(*   big      BOOLEAN: costs exceed machine integers (not followed by sweeps) *)
(* A state is a record [t, xs, sl, tot]: tree, index sets, slices, cost.    *)
EXTENDS CTree

\* Index set of B once it contracts D and C: computed from the neighbourhood only
NewInds(s, a, b, c, d, e) ==
  LET hypA == s.xs[a] \cap s.xs[b] \cap s.xs[c]
      hypB == s.xs[b] \cap s.xs[d] \cap s.xs[e]
      x == s.xs[d]
      y == s.xs[c]
  IN ((x \cup y) \ (x \cap y)) \cup hypA \cup hypB

\* The children of B which may be exchanged with its sibling
Candidates(cf, s, b) ==
  LET c == Sibling(s.t, b)
  IN {e \in Kids(s.t, b) :
        LET d == Sibling(s.t, e)
        IN cf.share => s.xs[d] \cap s.xs[c] # {}}

\* States after exchanging e (child of b) with the sibling of b
Moved(cf, s, b, e, newsl) ==
  LET a == s.t.par[b]
      c == Sibling(s.t, b)
      d == Sibling(s.t, e)
      nb == NewInds(s, a, b, c, d, e)
      t2 == Exchange(s.t, e)
      xs2 == [s.xs EXCEPT ![b] = nb]
      old == NodeCost(cf.m, s.t, s.xs, s.sl, a) + NodeCost(cf.m, s.t, s.xs, s.sl, b)
      new == NodeCost(cf.m, t2, xs2, s.sl, a) + NodeCost(cf.m, t2, xs2, s.sl, b)
  IN [t |-> t2, xs |-> xs2, sl |-> newsl,
      tot |-> IF cf.big THEN 0 ELSE IF newsl = s.sl THEN s.tot + new - old ELSE Cost(cf.m, t2, xs2, newsl)]

Fits(cf, X, sl) == ~cf.finite \/ Size(cf.m, X \ sl) <= cf.maxsize

\* Slices a move to a tensor with indices X may end up with: as they are if the
\* tensor fits, otherwise with up to maxnew further slices, the last of which is needed
SliceChoices(cf, X, sl) ==
  IF Fits(cf, X, sl) THEN {sl}
  ELSE {sl \cup N : N \in {M \in SUBSET (X \ (sl \cup cf.skip)) :
                             /\ M # {} /\ Cardinality(M) <= cf.maxnew
                             /\ Fits(cf, X, sl \cup M)
                             /\ \E x \in M : ~Fits(cf, X, sl \cup (M \ {x}))}}

\* Acceptance: pr = "base" (always), "greedy" (iff not increasing), "mh" (always if
\* not increasing, otherwise both outcomes are possible), "any" (no constraint)
MayAccept(pr, delta) == pr # "greedy" \/ delta <= 0
MayReject(pr, delta) == CASE pr = "base" -> FALSE
                          [] pr = "greedy" -> delta > 0
                          [] pr = "mh" -> delta > 0
                          [] OTHER -> TRUE

\* All states in which one visit of B may leave the optimizer
Visit(cf, pr, s, b) ==
  LET a == s.t.par[b]
      c == Sibling(s.t, b)
      mv(e) == {Moved(cf, s, b, e, sl2) :
                  sl2 \in SliceChoices(cf, NewInds(s, a, b, c, Sibling(s.t, e), e), s.sl)}
      cands == Candidates(cf, s, b)
      acc == UNION {{q \in mv(e) : MayAccept(pr, q.tot - s.tot)} : e \in cands}
      \* the tree stays: a proposed move is refused, or none of the proposals can be made to fit
      stay == \E e \in cands :
                LET X == NewInds(s, a, b, c, Sibling(s.t, e), e)
                IN \/ \E q \in mv(e) : MayReject(pr, q.tot - s.tot)
                   \/ ~Fits(cf, X, s.sl) /\ (\/ cf.maxnew = 0
                                             \/ \E M \in SUBSET (X \ (s.sl \cup cf.skip)) :
                                                  /\ ~Fits(cf, X, s.sl \cup M)
                                                  /\ (Cardinality(M) = cf.maxnew \/ M = X \ (s.sl \cup cf.skip)))
  IN acc \cup (IF stay THEN {s} ELSE {})

\* States in which a sweep started at b may leave the optimizer.  With a target tg
\* (tg.on) only the ones which can still become the target are followed: once a node
\* has been visited, its children stay, and slices are only added.
Towards(tg, q, b) ==
  ~tg.on \/ (Kids(q.t, b) = Kids(tg.t, b) /\ q.xs[b] = tg.xs[b] /\ (tg.anysl \/ q.sl \subseteq tg.sl))
RECURSIVE Climb(_, _, _, _, _)
Climb(cf, pr, SS, b, tg) ==
  IF SS = {} THEN {}
  ELSE LET a == (CHOOSE s \in SS : TRUE).t.par[b]
       IN IF a = 0 THEN SS
          ELSE Climb(cf, pr, {q \in UNION {Visit(cf, pr, s, b) : s \in SS} : Towards(tg, q, b)}, a, tg)

\* Nodes at which a sweep may start: the parents of the leaves
Starts(t) == {t.par[v] : v \in Leaves(t)} \ {0}

\* Everything one update may do to the tree and the slices (without re-slicing)
NoTarget == [on |-> FALSE]
Sweeps(cf, pr, s, tg) ==
  IF Len(s.t.par) = 1 THEN {s}
  ELSE UNION {Climb(cf, pr, {s}, b, tg) : b \in Starts(s.t)}

-----------------------------------------------------------------------------
(* Validity of an optimizer state, evaluated from scratch.                  *)
AllFit(cf, t, xs, sl) == ~cf.finite \/ \A v \in Nodes(t) : Size(cf.m, xs[v] \ sl) <= cf.maxsize

\* Slice sets a greedy re-slicing may choose (any sufficient set of allowed indices)
Slicings(cf, t, xs) ==
  {sl \in SUBSET ((UNION {xs[v] : v \in Nodes(t)}) \ cf.skip) : AllFit(cf, t, xs, sl)}
=============================================================================
