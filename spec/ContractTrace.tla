--------------------------- MODULE ContractTrace ----------------------------
(* Recorded contractions of integer arrays (C15).                           *)
(* kind "contract": [net, dims (given), hasout, arrays, path, refused,      *)
(*   left |-> <<inds>>, values |-> <<entries>>, shapes, outs, only]         *)
(*   bad |-> reasons which the driver planted and the code has to refuse    *)
(* kind "dot": two tensors, hyper indices, result                           *)
(* kind "einsum": an einsum expression as sequences of code points          *)
EXTENDS Paths, Values, TraceBase

Net(q) == [ts |-> [v \in DOMAIN q.ts |-> S(q.ts[v])], dims |-> q.dims, out |-> S(q.out)]
HasHyper(net) == \E x \in AllInds(net) : Cardinality({v \in Tensors(net) : x \in net.ts[v]}) > 2

\* Contracting two tensors (given as networks) inside the rest of the network: the model of one step
Contracted(c, A) ==
  LET net == Closed(Net(c.net))
      pos == Sorted(A)
  IN [ts |-> [j \in DOMAIN pos |-> c.net.ts[pos[j]]], arrays |-> [j \in DOMAIN pos |-> c.arrays[pos[j]]],
      open |-> IF Cardinality(A) = 1 THEN net.ts[pos[1]] ELSE Open(net, A)]

ContractClauses(c) ==
  LET net0 == Net(c.net)
      n == Len(c.net.ts)
      r == Interpret(n, c.path)
      bad == ~r.ok \/ c.planted # "" \/ (~c.hasout /\ HasHyper(net0)) \/ (c.hasout /\ ~(net0.out \subseteq AllInds(net0)))
  IN IF bad # c.refused THEN {IF bad THEN "accepted" ELSE "refused"}
     ELSE IF bad THEN {}
     ELSE (IF Len(c.left) = Len(r.list) /\ c.only = c.left THEN {} ELSE {"count"})
          \cup (IF c.untouched THEN {} ELSE {"input-changed"})
          \cup (IF Len(c.left) # Len(r.list) THEN {}
                ELSE LET K(j) == Contracted(c, r.list[j])
                     IN (IF \A j \in DOMAIN c.left : S(c.left[j]) = K(j).open /\ Len(c.left[j]) = Cardinality(S(c.left[j]))
                         THEN (IF \A j \in DOMAIN c.left : c.shapes[j] = [k \in DOMAIN c.left[j] |-> c.net.dims[c.left[j][k]]]
                               THEN (IF \A j \in DOMAIN c.left : IsValue(c.left[j], c.values[j], K(j).ts, K(j).arrays, c.net.dims)
                                     THEN {} ELSE {"value"})
                               ELSE {"shape"})
                         ELSE {"inds"})
                        \cup (IF S(c.outs) = (IF c.hasout THEN net0.out ELSE Dangling(net0)) \cap UNION {S(c.left[j]) : j \in DOMAIN c.left}
                              THEN {} ELSE {"output-inds"}))

DotClauses(c) ==
  LET X == S(c.xs)  Y == S(c.ys)  H == S(c.hyper)
      bad == ~(H \subseteq X \cap Y)
      Z == ((X \cup Y) \ (X \cap Y)) \cup H
  IN IF bad # c.refused THEN {IF bad THEN "accepted" ELSE "refused"}
     ELSE IF bad THEN {}
     ELSE IF S(c.zs) # Z \/ Len(c.zs) # Cardinality(Z) \/ c.only # c.zs THEN {"inds"}
     ELSE IF c.shape # [k \in DOMAIN c.zs |-> c.dims[c.zs[k]]] THEN {"shape"}
     ELSE IF IsValue(c.zs, c.az, <<c.xs, c.ys>>, <<c.ax, c.ay>>, c.dims) THEN {} ELSE {"value"}

\* An einsum expression renames the indices one to one
EinsumClauses(c) ==
  LET flat == FoldLeft(LAMBDA a, q : a \o q, <<>>, c.ts) \o c.out
      code == FoldLeft(LAMBDA a, q : a \o q, <<>>, c.terms) \o c.rhs
  IN IF Len(c.terms) # Len(c.ts) \/ Len(c.rhs) # Len(c.out) \/ (\E v \in DOMAIN c.ts : Len(c.ts[v]) # Len(c.terms[v]))
     THEN {"length"}
     ELSE IF \A i, j \in DOMAIN flat : (flat[i] = flat[j]) <=> (code[i] = code[j]) THEN {} ELSE {"renaming"}

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "contract" -> ContractClauses(c)
         [] c.kind = "dot" -> DotClauses(c)
         [] c.kind = "einsum" -> EinsumClauses(c)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
