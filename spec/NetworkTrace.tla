---------------------------- MODULE NetworkTrace ----------------------------
(* Recorded constructions, views and comparisons of tensors and networks    *)
(* (C27).                                                                   *)
EXTENDS Network, TraceBase

Verdict(ok, c) == IF ok = c.refused THEN {IF ok THEN "refused" ELSE "accepted"} ELSE {}

\* c: [t, refused, views |-> <<[how, inds, dims, ndim, array, tags]>>]
TensorClauses(c) ==
  LET ok == TensorOk(c.t)
  IN Verdict(ok, c) \cup
     (IF ~ok \/ c.refused THEN {}
      ELSE UNION {LET v == c.views[j]
                  IN Clause(v.inds = c.t.inds, "inds") \cup Clause(v.dims = TensorDims(c.t), "dims")
                     \cup Clause(v.ndim = Len(c.t.inds), "ndim") \cup Clause(v.array, "array") \cup Clause(v.tags, "tags")
                     \cup Clause(v.same, "not-equal")
                  : j \in DOMAIN c.views})

\* c: [net, refused, views |-> <<[n, len, ts, dims |-> <<<<x, d>>>>, inds, ninds, out, sparse, arrays, tags, items, same]>>]
NetClauses(c) ==
  LET ok == NetOk(c.net)
  IN Verdict(ok, c) \cup
     (IF ~ok \/ c.refused THEN {}
      ELSE UNION {LET v == c.views[j]
                  IN Clause(v.n = Len(c.net.ts) /\ v.len = v.n, "count")
                     \cup Clause(v.ts = [k \in DOMAIN c.net.ts |-> c.net.ts[k].inds], "tensors")
                     \cup Clause(S(v.inds) = Inds(c.net) /\ v.ninds = Cardinality(Inds(c.net)), "inds")
                     \cup Clause({<<v.dims[k][1], v.dims[k][2]>> : k \in DOMAIN v.dims} = {<<x, DimOf(c.net, x)>> : x \in Inds(c.net)}, "dims")
                     \cup Clause(S(v.out) = OutOf(c.net), "output")
                     \cup Clause(S(v.sparse) = SparseOf(c.net), "sparse")
                     \cup Clause(v.arrays, "arrays") \cup Clause(v.tags, "tags") \cup Clause(v.items, "items")
                     \cup Clause(v.same, "not-equal")
                  : j \in DOMAIN c.views})

\* Entries in millionths; two arrays are equal if all entries differ by less than ten of them
Close(p, q) == Len(p) = Len(q) /\ \A j \in DOMAIN p : p[j] - q[j] < 10 /\ q[j] - p[j] < 10
SameTensor(a, b) == /\ a.inds = b.inds /\ a.dims = b.dims /\ a.hasarray = b.hasarray
                    /\ a.hasarray => Close(a.q, b.q)
EqClauses(c) ==
  LET same == SameTensor(c.a, c.b)
  IN Clause(c.eq = same /\ c.qe = same, "equal") \cup Clause(c.ne = ~same, "unequal")
\* Networks: same tensors in the same order, same output and sparse indices, same tags
NetEqClauses(c) ==
  LET same == /\ Len(c.a.ts) = Len(c.b.ts) /\ \A v \in DOMAIN c.a.ts : SameTensor(c.a.ts[v], c.b.ts[v])
              /\ S(c.a.out) = S(c.b.out) /\ S(c.a.sparse) = S(c.b.sparse) /\ c.a.tag = c.b.tag
  IN Clause(c.eq = same /\ c.qe = same, "equal") \cup Clause(c.ne = ~same, "unequal")

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "tensor" -> TensorClauses(c)
         [] c.kind = "net" -> NetClauses(c)
         [] c.kind = "eq" -> EqClauses(c)
         [] c.kind = "neteq" -> NetEqClauses(c)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
