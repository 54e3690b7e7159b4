------------------------------- MODULE MCSets -------------------------------
(* The set types as machines: a pool of sets which grows with every          *)
(* operation.  The laws below say that they are the sets they stand for.     *)
EXTENDS Sets, TLC
CONSTANTS V, R, L, N

VARIABLES kind, pool
vars == <<kind, pool>>

Elem == {<<v, r>> : v \in 1..V, r \in 1..R}
Lists == UNION {[1..l -> Elem] : l \in 0..L}

Init == /\ kind \in {"ordered", "bits"}
        /\ pool = <<>>
Make == \/ kind = "ordered" /\ \E q \in Lists : pool' = Append(pool, OMake(q))
        \/ kind = "bits" /\ \E n \in 0..N : \E s \in SUBSET Universe(n) : pool' = Append(pool, Bits(n, s))
Combine ==
  \E i, j \in DOMAIN pool :
     \/ kind = "ordered" /\ \E op \in {"union", "intersection", "difference", "symmetric_difference"} :
          pool' = Append(pool, TLCEval(OOp(op, pool[i], pool[j])))
     \/ kind = "bits" /\ Combines(pool[i], pool[j]) /\ \E op \in {"and", "or", "xor", "sub"} :
          pool' = Append(pool, BOp(op, pool[i], pool[j]))
Next == /\ IF Len(pool) < 2 THEN Make ELSE Len(pool) < 3 /\ Combine
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Ordered == kind = "ordered"
\* No value twice; the first of equal elements is kept; order of first appearance
Distinct == Ordered => \A p \in DOMAIN pool : \A j, l \in DOMAIN pool[p] : pool[p][j][1] = pool[p][l][1] => j = l
MakeLaw == Ordered /\ Len(pool) = 1 => OMake(pool[1]) = pool[1]

A == pool[1]
B == pool[2]
Members == (Ordered /\ Len(pool) = 2) =>
  /\ OMem(OUnion(A, B)) = OMem(A) \cup OMem(B)
  /\ OMem(OInter(A, B)) = OMem(A) \cap OMem(B)
  /\ OMem(ODiff(A, B)) = OMem(A) \ OMem(B)
  /\ OMem(OSym(A, B)) = OMem(OUnion(ODiff(A, B), ODiff(B, A)))
  /\ OUnion(A, B) = A \o ODiff(B, A)
  /\ OSym(A, B) = ODiff(A, B) \o ODiff(B, A)
  /\ \A op \in {"union", "intersection", "difference", "symmetric_difference"} :
       \A j, l \in DOMAIN A : \A a, b \in DOMAIN OOp(op, A, B) :
          OOp(op, A, B)[a] = A[j] /\ OOp(op, A, B)[b] = A[l] /\ j < l => a < b

BitLaws == (~Ordered /\ Len(pool) >= 1) =>
  /\ \A p \in DOMAIN pool : pool[p].s \subseteq Universe(pool[p].n)
  /\ BNot(BNot(A)) = A
  /\ OfBits(ToBits(A)) = A
  /\ FromPositions(A.n, Ascending(A.s))
  /\ Len(pool) = 2 /\ Combines(A, B) =>
       /\ BNot(BAnd(A, B)) = BOr(BNot(A), BNot(B))
       /\ BMinus(A, B) = BAnd(A, BNot(B))
       /\ BXor(A, B) = BMinus(BOr(A, B), BAnd(A, B))
       /\ Pred("le", A.s, B.s) = (BOr(A, B) = B)
       /\ Pred("isdisjoint", A.s, B.s) = (BAnd(A, B).s = {})
=============================================================================
