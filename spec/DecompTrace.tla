---------------------------- MODULE DecompTrace -----------------------------
(* Diagonal decompositions and singular value decompositions (C16).         *)
(* Entries are integers; a tolerance k means that entries of magnitude at   *)
(* most k may be taken for zero, and entries at most k apart for equal.     *)
EXTENDS Values, TraceBase

Abs(x) == IF x < 0 THEN -x ELSE x
\* Merged indices as classes: rep[x] for every index; pairs <<kept, <<merged>>>>
Classes(X, merged) ==
  LET e == {{merged[j][1]} \cup Elems(merged[j][2]) : j \in DOMAIN merged}
  IN {K \in {UNION {q \in e : x \in q} \cup {x} : x \in X} : TRUE}
Agree(cl, f) == \A K \in cl : \A x, y \in K \cap DOMAIN f : f[x] = f[y]

\* c: [inds, dims, k, q, ninds, nq, merged]
TensorClauses(c) ==
  LET X == Elems(c.inds)
      cl == Classes(X, c.merged)
      as == Assigns(X, c.dims)
      new(f) == Entry(c.nq, c.ninds, c.dims, f)
      old(f) == Entry(c.q, c.inds, c.dims, f)
      keys == [j \in DOMAIN c.merged |-> c.merged[j][1]]
  IN IF ~(Elems(c.ninds) \subseteq X) \/ Len(c.ninds) # Cardinality(Elems(c.ninds)) \/ Len(c.nq) # SizeOf(c.ninds, c.dims)
     THEN {"shape"}
     ELSE IF ~(\A j \in DOMAIN c.merged : Elems(c.merged[j][2]) \cup {keys[j]} \subseteq X /\ keys[j] \notin Elems(c.merged[j][2]))
             \/ (\E i, j \in DOMAIN c.merged : i # j /\ (Elems(c.merged[i][2]) \cup {keys[i]}) \cap (Elems(c.merged[j][2]) \cup {keys[j]}) # {})
     THEN {"map"}
     ELSE (IF \A f \in as : Agree(cl, f) => Abs(old(f) - new(f)) <= c.k THEN {} ELSE {"value"})
          \cup (IF \A f \in as : ~Agree(cl, f) => Abs(old(f)) <= c.k THEN {} ELSE {"dropped"})
          \* what was merged away is gone, what was not merged is still there (unless all are equal)
          \cup (IF \A j \in DOMAIN c.merged : Elems(c.merged[j][2]) \cap Elems(c.ninds) = {} THEN {} ELSE {"merged-left"})
          \cup (IF c.ninds = <<>> \/ X \ Elems(c.ninds) = UNION {Elems(c.merged[j][2]) : j \in DOMAIN c.merged} THEN {} ELSE {"lost-index"})
          \* nothing diagonal is left
          \cup (IF \A x, y \in Elems(c.ninds) : x # y /\ c.dims[x] = c.dims[y] =>
                     \E f \in Assigns(Elems(c.ninds), c.dims) : f[x] # f[y] /\ Abs(new(f)) > c.k
                THEN {} ELSE {"still-diagonal"})

\* c: [inds, dims, k, q, diag]: first two axes
DiagClauses(c) ==
  LET yes == /\ c.dims[c.inds[1]] = c.dims[c.inds[2]]
             /\ \A f \in Assigns(Elems(c.inds), c.dims) : f[c.inds[1]] # f[c.inds[2]] => Abs(Entry(c.q, c.inds, c.dims, f)) <= c.k
  IN IF yes = c.diag THEN {} ELSE {"is-diagonal"}

\* A whole network (exact): c: [ts, dims, arrays, nts, narrays, map |-> <<rep of index x>>]
NetClauses(c) ==
  LET X == UNION {Elems(c.ts[v]) : v \in DOMAIN c.ts}
      as == Assigns(X, c.dims)
      cls == {{y \in X : c.map[y] = c.map[x]} : x \in X}
      at(f, v) == Entry(c.narrays[v], c.nts[v], c.dims, f)
      prod(f) == FoldLeft(LAMBDA a, v : a * at(f, v), 1, [v \in DOMAIN c.nts |-> v])
  IN IF Len(c.nts) # Len(c.ts) \/ (\E x \in X : c.map[x] \notin X) \/ (\E x \in X : c.map[c.map[x]] # c.map[x])
        \/ (\E x \in X : c.dims[c.map[x]] # c.dims[x])
     THEN {"map"}
     ELSE IF \E v \in DOMAIN c.nts : \/ ~(Elems(c.nts[v]) \subseteq {c.map[x] : x \in Elems(c.ts[v])})
                                     \/ Len(c.narrays[v]) # SizeOf(c.nts[v], c.dims)
                                     \/ Len(c.nts[v]) # Cardinality(Elems(c.nts[v]))
     THEN {"shape"}
     ELSE (IF \A f \in as : (\A K \in cls : \A x, y \in K : f[x] = f[y]) => Term(c.ts, c.arrays, c.dims, f) = prod(f)
           THEN {} ELSE {"value"})
          \cup (IF \A f \in as : ~(\A K \in cls : \A x, y \in K : f[x] = f[y]) => Term(c.ts, c.arrays, c.dims, f) = 0
                THEN {} ELSE {"dropped"})
          \* every class is still contracted (or open) in the same sense
          \cup (IF \A K \in cls :
                     LET was == Cardinality({v \in DOMAIN c.ts : Elems(c.ts[v]) \cap K # {}})
                         is == Cardinality({v \in DOMAIN c.nts : Elems(c.nts[v]) \cap K # {}})
                     IN is >= (IF was < 2 THEN was ELSE 2)
                THEN {} ELSE {"lost-index"})

\* c: [inds, dims, left, q, new, atol1000, parts |-> <<[inds, shape, q]>>] with entries of the parts in units of 1/4096
U == 4096
Near(a, b, tol) == Abs(a - b) <= tol
SvdClauses(c) ==
  LET n == Len(c.inds)
      right == SelectSeq(c.inds, LAMBDA x : ~\E j \in DOMAIN c.left : c.left[j] = x)
      bad == ~(Elems(c.left) \subseteq Elems(c.inds)) \/ c.clash
  IN IF bad # c.refused THEN {IF bad THEN "accepted" ELSE "refused"}
     ELSE IF bad THEN {}
     ELSE IF c.left = <<>> \/ right = <<>>
     THEN IF Len(c.parts) # 1 THEN {"parts"}
          ELSE LET p == c.parts[1]
               IN IF p.inds # (IF c.left = <<>> THEN c.inds ELSE c.left) \/ Len(p.q) # Len(c.q) THEN {"inds"}
                  ELSE IF \A f \in Assigns(Elems(c.inds), c.dims) :
                            Entry(p.q, p.inds, c.dims, f) = U * Entry(c.q, c.inds, c.dims, f) THEN {} ELSE {"value"}
     ELSE IF Len(c.parts) # 3 THEN {"parts"}
     ELSE LET u == c.parts[1]  s == c.parts[2]  w == c.parts[3]
              r == Len(s.q)
              x == c.new
              dims == IF x \in DOMAIN c.dims THEN [c.dims EXCEPT ![x] = r] ELSE c.dims
              L == Assigns(Elems(c.left), dims)
              R == Assigns(Elems(right), dims)
              full == IF Cardinality(L) < Cardinality(R) THEN Cardinality(L) ELSE Cardinality(R)
              ue(f, k) == Entry(u.q, u.inds, dims, [y \in Elems(u.inds) |-> IF y = x THEN k - 1 ELSE f[y]])
              we(g, k) == Entry(w.q, w.inds, dims, [y \in Elems(w.inds) |-> IF y = x THEN k - 1 ELSE g[y]])
              val(f, g) == FoldLeft(LAMBDA a, k : a + ((((ue(f, k) * s.q[k]) \div U) * we(g, k)) \div U), 0, [k \in 1..r |-> k])
              diff(f, g) == val(f, g) - U * Entry(c.q, c.inds, dims, [y \in Elems(c.inds) |-> IF y \in Elems(c.left) THEN f[y] ELSE g[y]])
              tol == 40 + ((c.atol1000 * U) \div 1000) * (full - r)
          IN IF u.inds # c.left \o <<x>> \/ s.inds # <<x>> \/ w.inds # <<x>> \o right
                \/ Len(u.q) # Cardinality(L) * r \/ Len(w.q) # Cardinality(R) * r THEN {"inds"}
             ELSE (IF r <= full /\ (\A k \in 1..r : s.q[k] >= 0 /\ s.q[k] + 1 >= (c.atol1000 * U) \div 1000)
                      /\ (\A k \in 1..(r - 1) : s.q[k] >= s.q[k + 1]) THEN {} ELSE {"singular-values"})
                  \cup (IF \A f \in L : \A g \in R : Abs(diff(f, g)) <= tol THEN {} ELSE {"value"})
                  \cup (IF \A a, b \in 1..r :
                             /\ Near(FoldLeft(LAMBDA z, f : z + (ue(f, a) * ue(f, b)) \div U, 0, SetToSeq(L)), IF a = b THEN U ELSE 0, 40)
                             /\ Near(FoldLeft(LAMBDA z, g : z + (we(g, a) * we(g, b)) \div U, 0, SetToSeq(R)), IF a = b THEN U ELSE 0, 40)
                        THEN {} ELSE {"orthogonal"})

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "tensor" -> TensorClauses(c)
         [] c.kind = "diag" -> DiagClauses(c)
         [] c.kind = "net" -> NetClauses(c)
         [] c.kind = "svd" -> SvdClauses(c)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
