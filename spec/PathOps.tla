------------------------------ MODULE PathOps -------------------------------
(* Operations on contraction paths: random paths (C12), splitting and       *)
(* merging (C13) and fusing up to a width (C14).                            *)
EXTENDS Paths

Inner0(net, L) == UNION {net.ts[v] : v \in L}
\* Two disjoint sets of tensors share an index
Share(net, A, B) == Inner0(net, A) \cap Inner0(net, B) # {}

-----------------------------------------------------------------------------
(* Random paths: only pairs sharing an index are contracted, until every    *)
(* component is one tensor.  An index is only available while two tensors   *)
(* of the list still hold it.                                               *)
RInit(net) == Begin(Len(net.ts))
RPairs(net, s) == {pr \in (DOMAIN s.list) \X (DOMAIN s.list) : pr[1] < pr[2] /\ Share(net, s.list[pr[1]], s.list[pr[2]])}

\* What a path may do inside components / between complete components
InComponent(net, comps, A, B) == (\E K \in comps : (A \cup B) \subseteq K) /\ Share(net, A, B)
BetweenComponents(comps, A, B) == \A X \in {A, B} : X = UNION {K \in comps : K \subseteq X}

\* Separate paths: one for each component with several tensors, the others empty
SeparateClauses(net, paths) ==
  LET n == Len(net.ts)
      comps == Components(net)
      busy == {j \in DOMAIN paths : Len(paths[j]) > 0}
      run == [j \in DOMAIN paths |-> Interpret(n, paths[j])]
  IN IF \E j \in DOMAIN paths : ~run[j].ok THEN {"invalid-path"}
     ELSE (IF \A j \in busy : \E K \in comps : K \in S0(run[j].list) /\ UNION {UNION pr : pr \in run[j].done} = K
           THEN {} ELSE {"not-one-component"})
          \cup (IF \A j \in busy : \A pr \in run[j].done : InComponent(net, comps, CHOOSE a \in pr : TRUE,
                                                                      CHOOSE b \in pr : pr = {b, CHOOSE a \in pr : TRUE})
                THEN {} ELSE {"no-shared-index"})
          \cup (IF \A K \in comps : Cardinality(K) > 1 => Cardinality({j \in busy : UNION {UNION pr : pr \in run[j].done} = K}) = 1
                THEN {} ELSE {"missing-component"})

\* One path for everything
MergedClauses(net, path, complete) ==
  LET n == Len(net.ts)
      comps == Components(net)
      r == Interpret(n, path)
      fst(pr) == CHOOSE a \in pr : TRUE
      snd(pr) == CHOOSE b \in pr : pr = {b, fst(pr)}
  IN IF ~r.ok THEN {"invalid-path"}
     ELSE (IF complete /\ Len(r.list) > 1 THEN {"incomplete"} ELSE {})
          \cup (IF ~complete /\ S0(r.list) # comps THEN {"not-the-components"} ELSE {})
          \cup (IF \A pr \in r.done : \/ InComponent(net, comps, fst(pr), snd(pr))
                                      \/ complete /\ BetweenComponents(comps, fst(pr), snd(pr))
                THEN {} ELSE {"no-shared-index"})
          \cup (IF complete => \A K \in comps : Cardinality(K) > 1 => \E pr \in r.done : UNION pr = K THEN {} ELSE {"component-not-one"})

-----------------------------------------------------------------------------
(* Splitting and merging.                                                   *)

\* Groups of tensors which a path contracts together
Groups(n, path) == S0(Interpret(n, path).list)
\* The contractions of a path inside a group of tensors
Within(n, path, K) == {pr \in Contractions(n, path) : UNION pr \subseteq K}
\* A path over the tensors of K only, renumbered in increasing order
Renumbered(K, done) == LET pos == Sorted(K) IN {{{pos[v] : v \in A} : A \in pr} : pr \in done}

-----------------------------------------------------------------------------
(* Fusing: contract pairs which share an index as long as the new tensor    *)
(* fits; an index is given up when a pair sharing it cannot be contracted.  *)
FInit(net, excl) ==
  [list |-> Begin(Len(net.ts)).list, done |-> {}, gone |-> {},
   avail |-> {x \in AllInds(net) \ excl : Cardinality({v \in Tensors(net) : x \in net.ts[v]}) > 1}]
Holders(net, list, x) == {j \in DOMAIN list : x \in Inner0(net, list[j])}
Fits(net, W, excl, A, B) ==
  /\ (Open(net, A) \cup Open(net, B)) \cap excl = {}
  /\ Prod(Open(net, A \cup B), net.dims) <= W
FSteps(net, W, excl, s) ==
  UNION {IF Cardinality(Holders(net, s.list, x)) < 2 THEN {[s EXCEPT !.avail = @ \ {x}]}
         ELSE {LET a == s.list[pr[1]]  b == s.list[pr[2]]
               IN IF Fits(net, W, excl, a, b)
                  THEN [s EXCEPT !.list = Append(Without(s.list, {pr[1], pr[2]}), a \cup b), !.done = @ \cup {{a, b}}]
                  ELSE [s EXCEPT !.avail = @ \ {x}, !.gone = @ \cup {x}]
               : pr \in {q \in Holders(net, s.list, x) \X Holders(net, s.list, x) : q[1] < q[2]}}
         : x \in s.avail}

\* A path is a possible fusion
FuseClauses(net, W, excl, path) ==
  LET n == Len(net.ts)
      pre == [j \in 0..Len(path) |-> Interpret(n, SubSeq(path, 1, j))]
      last == pre[Len(path)].list
      fst(pr) == CHOOSE a \in pr : TRUE
      snd(pr) == CHOOSE b \in pr : pr = {b, fst(pr)}
      left == {x \in AllInds(net) \ excl : Cardinality(Holders(net, last, x)) > 1}
      stuck(list, x) == LET h == Holders(net, list, x)
                        IN \E a, b \in h : a < b /\ ~Fits(net, W, excl, list[a], list[b])
  IN IF ~pre[Len(path)].ok THEN {"invalid-path"}
     ELSE (IF \A pr \in pre[Len(path)].done : Share(net, fst(pr), snd(pr)) THEN {} ELSE {"no-shared-index"})
          \cup (IF \A pr \in pre[Len(path)].done : Prod(Open(net, UNION pr), net.dims) <= W THEN {} ELSE {"too-wide"})
          \cup (IF \A pr \in pre[Len(path)].done : (Open(net, fst(pr)) \cup Open(net, snd(pr))) \cap excl = {}
                THEN {} ELSE {"excluded-index"})
          \cup (IF \A x \in left : \E j \in DOMAIN pre : stuck(pre[j].list, x) THEN {} ELSE {"given-up"})

\* The index sets of the tensors which the path creates, one after the other
Created(net, path) ==
  LET n == Len(net.ts)
  IN [j \in 1..Len(path) |-> LET q == Interpret(n, SubSeq(path, 1, j)).list IN Open(net, q[Len(q)])]
=============================================================================
