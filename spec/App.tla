-------------------------------- MODULE App ---------------------------------
(* What the top-level optimizer returns.  A result is a record               *)
(*   [paths, slices, costs]   one for every connected component              *)
(*   [path, all, cost]        the whole contraction, all slices, total cost  *)
(* A tensor without indices may go without a path of its own.                *)
(* Costs are intervals of naturals [blo, bhi] containing the reported cost.  *)
EXTENDS PathOps

BIn(v, q) == BLeq(q.blo, v) /\ BLeq(v, q.bhi)

\* Cost of contracting along the pairs in done with the given slices
PairCost(m, net, pr, sl) == BSize(m, (UNION {Open(net, A) : A \in pr}) \cup sl)
ContractionCost(m, net, done, sl) == FoldLeft(LAMBDA a, pr : BAdd(a, PairCost(m, net, pr, sl)), BZero, SetToSeq(done))

\* The tensors which exist during the contraction fit once the slices are removed
TensorsFit(m, net, done, sl, maxsize) ==
  \A pr \in done : \A X \in pr \cup {UNION pr} : Size(m, Open(net, X) \ sl) <= maxsize

ResultClauses(net, m, finite, maxsize, r) ==
  LET n == Len(net.ts)
      comps == Components(net)
      N == DOMAIN r.paths
      sep == SeparateClauses(net, r.paths)
      mer == MergedClauses(net, r.path, TRUE)
      done == [j \in N |-> Contractions(n, r.paths[j])]
      sl(j) == IF finite THEN S0(r.slices[j]) ELSE {}
      tot == FoldLeft(LAMBDA a, j : BAdd(a, ContractionCost(m, net, done[j], sl(j))), BZero, SetToSeq(N))
      within == {pr \in Contractions(n, r.path) : \E K \in comps : UNION pr \subseteq K}
  IN IF sep # {} THEN {"C18:separate-" \o x : x \in sep}
     ELSE IF mer # {} THEN {"C18:path-" \o x : x \in mer}
     ELSE (IF Cardinality(N) \in {Cardinality(comps), Cardinality({K \in comps : Inner0(net, K) # {}})}
           THEN {} ELSE {"C18:number-of-components"})
          \cup (IF within = UNION {done[j] : j \in N} THEN {} ELSE {"C18:paths-differ"})
          \cup (IF Len(r.costs) = Len(r.paths) /\ (finite => Len(r.slices) = Len(r.paths))
                THEN (IF \A j \in N : BIn(ContractionCost(m, net, done[j], sl(j)), r.costs[j]) THEN {} ELSE {"C18:cost-of-component"})
                     \cup (IF BIn(tot, r.cost) THEN {} ELSE {"C18:cost"})
                     \cup (IF ~finite THEN {}
                           ELSE (IF UNION {sl(j) : j \in N} = S0(r.all) THEN {} ELSE {"C18:slices-differ"})
                                \cup (IF \A j \in N : sl(j) \subseteq UNION {Inner0(net, UNION pr) : pr \in done[j]}
                                      THEN {} ELSE {"C18:slices-of-other-component"})
                                \cup (IF \A j \in N : TensorsFit(m, net, done[j], sl(j), maxsize) THEN {} ELSE {"C18:width"}))
                ELSE {"C18:lengths"})
=============================================================================
