------------------------------- MODULE Paths --------------------------------
(* Linear contraction paths: at every step the tensors at two positions of  *)
(* the current list are removed and their contraction is appended.          *)
(* Items are sets of original tensors 1..n; positions start from 1 here.    *)
EXTENDS CTree

\* Elements of a sequence
S0(q) == {q[j] : j \in DOMAIN q}

Without(q, X) == [j \in 1..(Len(q) - Cardinality(X)) |->
                    LET keep == {x \in DOMAIN q : x \notin X}
                    IN q[CHOOSE x \in keep : Cardinality({y \in keep : y < x}) = j - 1]]

\* A state of the interpretation: [list, done |-> set of {A, B}, ok]
Begin(n) == [list |-> [v \in 1..n |-> {v}], done |-> {}, ok |-> TRUE]
PStep(s, p) ==
  IF ~s.ok \/ Len(p) # 2 \/ p[1] = p[2] \/ ~({p[1], p[2]} \subseteq DOMAIN s.list) THEN [s EXCEPT !.ok = FALSE]
  ELSE [list |-> Append(Without(s.list, {p[1], p[2]}), s.list[p[1]] \cup s.list[p[2]]),
        done |-> s.done \cup {{s.list[p[1]], s.list[p[2]]}},
        ok |-> TRUE]
Interpret(n, path) == FoldLeft(PStep, Begin(n), path)

IsPath(n, path) == Interpret(n, path).ok
\* The pairwise contractions which a path performs
Contractions(n, path) == Interpret(n, path).done
\* Original tensors touched by a path
Used(n, path) == LET d == Interpret(n, path).done IN UNION {UNION pr : pr \in d}

\* The pairwise contractions of a tree whose leaf v is the original tensor pos[v]
TreeContractions(t, pos) ==
  LET b == Below(t)
      img(v) == {pos[x] : x \in b[v]}
  IN {{img(t.c1[v]), img(t.c2[v])} : v \in {u \in Nodes(t) : ~IsLeaf(t, u)}}

\* The elements of a set of numbers in increasing order
Sorted(X) == [j \in 1..Cardinality(X) |-> CHOOSE x \in X : Cardinality({y \in X : y < x}) = j - 1]
=============================================================================
