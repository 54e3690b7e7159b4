------------------------------- MODULE Values -------------------------------
(* What tensor networks denote: a tensor is an ordered list of distinct     *)
(* indices with a row-major sequence of entries.  Entries are integers (or  *)
(* elements of any ring given by Add, Mul below).  Assignments are          *)
(* functions from indices to positions 0..d-1.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* All assignments of a set of indices
RECURSIVE Assigns(_, _)
Assigns(X, dims) ==
  IF X = {} THEN {<<>>}
  ELSE LET x == CHOOSE y \in X : TRUE
       IN {[y \in X |-> IF y = x THEN k ELSE f[y]] : k \in 0..(dims[x] - 1), f \in Assigns(X \ {x}, dims)}

\* Position (from 1) of the entry of a tensor with the given list of indices
Pos(inds, dims, f) == 1 + FoldLeft(LAMBDA a, x : a * dims[x] + f[x], 0, inds)
Entry(q, inds, dims, f) == q[Pos(inds, dims, f)]
SizeOf(inds, dims) == FoldLeft(LAMBDA a, x : a * dims[x], 1, inds)
Elems(inds) == {inds[j] : j \in DOMAIN inds}

\* The product of all entries for one assignment of all indices
Term(ts, arrays, dims, f) == FoldLeft(LAMBDA a, v : a * Entry(arrays[v], ts[v], dims, f), 1, [v \in DOMAIN ts |-> v])
\* A tensor network with integer entries denotes, for an assignment g of the open indices,
\* the sum over all other indices
Denote(ts, arrays, dims, open, g) ==
  LET rest == UNION {Elems(ts[v]) : v \in DOMAIN ts} \ open
      as == SetToSeq(Assigns(rest, dims))
  IN FoldLeft(LAMBDA a, h : a + Term(ts, arrays, dims, [x \in open \cup rest |-> IF x \in open THEN g[x] ELSE h[x]]), 0, as)

\* Tensor (inds, q) is the network (ts, arrays) with open indices Elems(inds)
IsValue(inds, q, ts, arrays, dims) ==
  /\ Len(q) = SizeOf(inds, dims)
  /\ \A g \in Assigns(Elems(inds), dims) : Entry(q, inds, dims, g) = Denote(ts, arrays, dims, Elems(inds), g)
=============================================================================
