---------------------------- MODULE PathOpsTrace ----------------------------
(* Recorded outputs of get_random_contraction_path, split/merge and fuse.   *)
EXTENDS PathOps, TraceBase

Net(q) == [ts |-> [v \in DOMAIN q.ts |-> S(q.ts[v])], dims |-> q.dims, out |-> S(q.out)]
HasHyper(net) == \E x \in AllInds(net) : Cardinality({v \in Tensors(net) : x \in net.ts[v]}) > 2

RandomClauses(c) ==
  LET net == Net(c.net)
  IN (IF c.same THEN {} ELSE {"same-seed"})
     \cup (IF c.untouched THEN {} ELSE {"input-changed"})
     \cup SeparateClauses(net, c.paths)
     \cup {"merged:" \o x : x \in MergedClauses(net, c.merged, FALSE)}
     \cup {"complete:" \o x : x \in MergedClauses(net, c.complete, TRUE)}

\* c: [n, path, paths, comps, npaths (normalized), plain, back, full]
SplitClauses(c) ==
  LET n == c.n
      K(j) == S(c.comps[j])
      whole == Contractions(n, c.path)
  IN      (IF {K(j) : j \in DOMAIN c.comps} = Groups(n, c.path) /\ Len(c.comps) = Cardinality(Groups(n, c.path))
              /\ Len(c.paths) = Len(c.comps) /\ Len(c.npaths) = Len(c.comps)
           THEN (IF \A j \in DOMAIN c.paths : IsPath(n, c.paths[j]) /\ Contractions(n, c.paths[j]) = Within(n, c.path, K(j))
                 THEN {} ELSE {"split"})
                \cup (IF \A j \in DOMAIN c.npaths :
                           /\ IsPath(Cardinality(K(j)), c.npaths[j])
                           /\ Renumbered(K(j), Contractions(Cardinality(K(j)), c.npaths[j])) = Within(n, c.path, K(j))
                      THEN {} ELSE {"normalized"})
           ELSE {"components"})
          \cup (IF c.plain = SelectSeq(c.paths, LAMBDA p : Len(p) > 0) THEN {} ELSE {"plain"})
          \cup (IF IsPath(n, c.back) /\ Contractions(n, c.back) = whole THEN {} ELSE {"merge-split"})
          \cup (IF /\ IsPath(n, c.full) /\ whole \subseteq Contractions(n, c.full)
                   /\ Len(c.full) = n - 1
                   /\ \A pr \in Contractions(n, c.full) \ whole : \A A \in pr : A = UNION {G \in Groups(n, c.path) : G \subseteq A}
                THEN {} ELSE {"autocomplete"})

\* c: [n, paths, refused, merged, full]: paths over n tensors; refused iff they overlap
MergeClauses(c) ==
  LET n == c.n
      used == [j \in DOMAIN c.paths |-> Used(n, c.paths[j])]
      overlap == \E i, j \in DOMAIN c.paths : i < j /\ used[i] \cap used[j] # {}
      all == UNION {Contractions(n, c.paths[j]) : j \in DOMAIN c.paths}
  IN IF overlap # c.refused THEN {IF overlap THEN "overlap-accepted" ELSE "merge-refused"}
     ELSE IF overlap THEN {}
     ELSE (IF IsPath(n, c.merged) /\ Contractions(n, c.merged) = all THEN {} ELSE {"merged"})
          \cup (IF IsPath(n, c.full) /\ all \subseteq Contractions(n, c.full) /\ Len(c.full) = n - 1 THEN {} ELSE {"autocomplete"})

\* c: [net, hasout, excl, missing, W, refused, path, fused, left, same, untouched]
FuseCase(c) ==
  LET net0 == Net(c.net)
      net == Closed(net0)
      bad == \/ ~(S(c.excl) \subseteq AllInds(net0)) \/ c.missing
             \/ (c.hasout /\ ~(net0.out \subseteq AllInds(net0)))
             \/ (~c.hasout /\ HasHyper(net0))
  IN IF bad # c.refused THEN {IF bad THEN "accepted" ELSE "refused"}
     ELSE IF bad THEN {}
     ELSE (IF c.same THEN {} ELSE {"same-seed"})
          \cup (IF c.untouched THEN {} ELSE {"input-changed"})
          \cup LET cl == FuseClauses(net, c.W, S(c.excl), c.path)
               IN IF cl # {} THEN cl
                  ELSE (IF Len(c.fused) = Len(c.path) /\ [j \in DOMAIN c.fused |-> S(c.fused[j])] = Created(net, c.path)
                           /\ \A j \in DOMAIN c.fused : Len(c.fused[j]) = Cardinality(S(c.fused[j]))
                        THEN {} ELSE {"fused-inds"})
                       \cup (LET q == Interpret(Len(net.ts), c.path).list
                             IN IF [j \in DOMAIN c.left |-> S(c.left[j])] = [j \in DOMAIN q |-> IF Cardinality(q[j]) = 1 THEN net.ts[CHOOSE v \in q[j] : TRUE] ELSE Open(net, q[j])]
                                THEN {} ELSE {"contracted"})

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "random" -> RandomClauses(c)
         [] c.kind = "split" -> SplitClauses(c)
         [] c.kind = "merge" -> MergeClauses(c)
         [] c.kind = "fuse" -> FuseCase(c)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
