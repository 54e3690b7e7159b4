----------------------------- MODULE LoadTrace ------------------------------
(* Networks loaded from descriptions (C20).                                 *)
(* kind "inds": c.lines (all forms of writing the rows come as lines), what *)
(*   was loaded: c.got |-> [names, ts |-> <<[inds, dims]>>, out, sparse,    *)
(*   path, arrays |-> "none"]; c.fuse |-> fusion was asked for              *)
(* kind "net": c.net with integer entries c.q (<<>> where none are given),  *)
(*   options c.fuse, c.decompose, and what was loaded, with entries got.q   *)
(*   and the map of merged indices got.map                                  *)
EXTENDS Loading, Paths, Values, TraceBase

\* Networks of Network.tla as networks of TensorNet.tla
AsNet(net, m) == [ts |-> [v \in DOMAIN net.ts |-> El(net.ts[v].inds)],
                  dims |-> [x \in 1..m |-> IF x \in Inds(net) THEN DimOf(net, x) ELSE 1], out |-> OutOf(net)]
MaxInd(net) == IF Inds(net) = {} THEN 0 ELSE Max(Inds(net))
\* The loaded tensors are the ones left by the path
Fused(net, got, fuse) ==
  LET n == Len(net.ts)
      r == Interpret(n, got.path)
      tn == Closed(AsNet(net, MaxInd(net)))
      open(L) == IF Cardinality(L) = 1 THEN tn.ts[CHOOSE v \in L : TRUE] ELSE Open(tn, L)
  IN IF ~fuse /\ (got.path # <<>> \/ [v \in DOMAIN got.ts |-> got.ts[v].inds] # [v \in DOMAIN net.ts |-> net.ts[v].inds]) THEN {"tensors"}
     ELSE IF ~r.ok THEN {"fuse_path"}
     ELSE IF Len(r.list) # Len(got.ts) THEN {"count"}
     ELSE Clause(\A j \in DOMAIN got.ts : El(got.ts[j].inds) = open(r.list[j]) /\ Len(got.ts[j].inds) = Cardinality(El(got.ts[j].inds)), "inds")
          \cup Clause(\A j \in DOMAIN got.ts : \A k \in DOMAIN got.ts[j].inds :
                        LET x == got.ts[j].inds[k] IN x \in Inds(net) => got.ts[j].dims[k] = DimOf(net, x), "dims")
          \cup Clause(got.names = <<>> \/ \A j \in DOMAIN got.names :
                        /\ S(got.names[j]) = {net.names[v] : v \in r.list[j]} /\ Len(got.names[j]) = Cardinality(r.list[j]), "names")
          \cup Clause(S(got.sparse) = SparseOf(net), "sparse")

IndsClauses(c) ==
  LET rows == RowsOf(c.lines)
      ok == Readable(c.lines) /\ Fit(rows) /\ ~c.clash
      net == Described(rows)
  IN IF ok = c.refused THEN {IF ok THEN "refused" ELSE "accepted"}
     ELSE IF ~ok THEN {}
     ELSE Fused(net, c.got, c.fuse /\ SparseOf(net) = {})
          \cup Clause(S(c.got.out) = OutOf(net), "output") \cup Clause(c.got.noarrays, "arrays")

\* ------------------------------------------------------ networks with entries
NetClauses(c) ==
  LET net == c.net
      all == \A v \in DOMAIN net.ts : net.ts[v].has
      none == \A v \in DOMAIN net.ts : ~net.ts[v].has
      dec == c.decompose /\ all /\ SparseOf(net) = {}
      fus == c.fuse /\ (all \/ none) /\ SparseOf(net) = {}
      X == Inds(net)
      m == c.got.map
      ts == [v \in DOMAIN net.ts |-> net.ts[v].inds]
      q == [v \in DOMAIN net.ts |-> net.ts[v].q]
      nts == [v \in DOMAIN c.got.ts |-> c.got.ts[v].inds]
      nq == [v \in DOMAIN c.got.ts |-> c.got.ts[v].q]
      dims == [x \in X |-> DimOf(net, x)]
      out == OutOf(net)
      rep(x) == m[x]
  IN IF c.refused THEN {"refused"}
     ELSE IF ~dec /\ c.got.map # <<>> THEN {"map"}
     ELSE IF ~dec
     THEN Fused(net, c.got, fus) \cup Clause(S(c.got.out) = out, "output")
          \cup (IF all THEN (IF \E v \in DOMAIN nts : Len(nq[v]) # SizeOf(nts[v], dims) THEN {"shape"}
                             ELSE LET r == Interpret(Len(ts), c.got.path)
                                  IN Clause(r.ok /\ Len(r.list) = Len(nts) /\ \A v \in DOMAIN nts :
                                              LET p == Sorted(r.list[v])
                                              IN IsValue(nts[v], nq[v], [j \in DOMAIN p |-> ts[p[j]]], [j \in DOMAIN p |-> q[p[j]]], dims), "value"))
                ELSE IF none THEN Clause(\A v \in DOMAIN nq : nq[v] = <<>>, "arrays")
                ELSE Clause(nq = q, "arrays"))
     \* merged indices have one representative of the same dimension
     ELSE IF Len(m) < MaxInd(net) \/ \E x \in X : rep(x) \notin X \/ rep(rep(x)) # rep(x) \/ dims[rep(x)] # dims[x] THEN {"map"}
     ELSE IF UNION {El(nts[v]) : v \in DOMAIN nts} \ {rep(x) : x \in X} # {} \/ \E v \in DOMAIN nts : Len(nq[v]) # SizeOf(nts[v], dims)
     THEN {"shape"}
     ELSE IF S(c.got.out) # {rep(x) : x \in out} THEN {"output"}
     ELSE Clause(\A v \in DOMAIN nts : c.got.ts[v].dims = [j \in DOMAIN nts[v] |-> dims[nts[v][j]]], "dims")
          \cup Clause(\A g \in Assigns(out, dims) :
                 LET old == Denote(ts, q, dims, out, g)
                     agree == \A x, y \in out : rep(x) = rep(y) => g[x] = g[y]
                 IN IF agree
                    THEN Denote(nts, nq, dims, {rep(x) : x \in out},
                                [z \in {rep(x) : x \in out} |-> g[CHOOSE x \in out : rep(x) = z]]) = old
                    ELSE old = 0, "value")
          \cup Clause(Len(nts) = Len(ts) - Len(c.got.path), "count")
          \cup Clause(fus \/ c.got.path = <<>>, "fuse_path")

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "inds" -> IndsClauses(c)
         [] c.kind = "net" -> NetClauses(c)
         [] c.kind = "refuse" -> Clause(c.refused, "accepted")

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
