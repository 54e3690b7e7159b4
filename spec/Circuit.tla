------------------------------ MODULE Circuit -------------------------------
(* Quantum circuits: a gate is [q |-> sequence of distinct qubits 1..n,     *)
(* m |-> matrix (rows: outputs, columns: inputs; first qubit most           *)
(* significant), scaled to have entries in Z[w]].  A state is the sequence  *)
(* of its 2^n amplitudes, qubit 1 most significant.                         *)
EXTENDS Zomega

Bit(n, s, j) == ((s - 1) \div 2 ^ (n - j)) % 2            \* of position s (from 1)
SetBit(n, s, j, b) == s + (b - Bit(n, s, j)) * 2 ^ (n - j)
\* Row/column of a gate's matrix which position s belongs to
Local(n, q, s) == 1 + FoldLeft(LAMBDA a, j : 2 * a + Bit(n, s, j), 0, q)
\* Position s with the bits of q replaced by the ones of local position r
Put(n, q, s, r) == FoldLeft(LAMBDA a, i : SetBit(n, a, q[i], Bit(Len(q), r, i)), s, [i \in DOMAIN q |-> i])

Apply(n, psi, g) ==
  [s \in 1..(2 ^ n) |->
     LET row == g.m[Local(n, g.q, s)]
     IN ZSum([r \in 1..Len(row) |-> IF row[r] = ZZero THEN ZZero ELSE ZMul(row[r], psi[Put(n, g.q, s, r)])])]
Run(n, psi, gates) == FoldLeft(LAMBDA p, g : Apply(n, p, g), psi, gates)

\* Product of one-qubit vectors (given for each qubit)
Product(n, vs) == [s \in 1..(2 ^ n) |-> FoldLeft(LAMBDA a, j : ZMul(a, vs[j][1 + Bit(n, s, j)]), ZOne, [j \in 1..n |-> j])]
Basis(b) == IF b = 0 THEN <<ZOne, ZZero>> ELSE <<ZZero, ZOne>>

\* ini, fin: for each qubit a vector, or <<>> if it is open.  The matrix element of the circuit
\* for bits on the open inputs (in order of the qubits) followed by the open outputs
OpenOf(vs) == SelectSeq([j \in DOMAIN vs |-> j], LAMBDA j : vs[j] = <<>>)
With(vs, bits) == LET o == OpenOf(vs)
                  IN [j \in DOMAIN vs |-> IF vs[j] # <<>> THEN vs[j] ELSE Basis(bits[CHOOSE k \in DOMAIN o : o[k] = j])]
BitsOf(k, s) == [j \in 1..k |-> Bit(k, s, j)]
\* All elements, the open inputs most significant
Elements(n, gates, ini, fin) ==
  LET ki == Len(OpenOf(ini))
      kf == Len(OpenOf(fin))
      cols == [a \in 1..(2 ^ ki) |-> Run(n, Product(n, With(ini, BitsOf(ki, a))), gates)]
      bras == [b \in 1..(2 ^ kf) |-> Product(n, With(fin, BitsOf(kf, b)))]
      dot(u, p) == ZSum([s \in DOMAIN p |-> IF u[s] = ZZero THEN ZZero ELSE ZMul(ZConj(u[s]), p[s])])
  IN FoldLeft(LAMBDA acc, a : acc \o [b \in 1..(2 ^ kf) |-> dot(bras[b], cols[a])], <<>>, [a \in 1..(2 ^ ki) |-> a])

\* Two lists of elements agree up to one unit of Z[w]
Units == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>,
          <<-1, 0, 0, 0>>, <<0, -1, 0, 0>>, <<0, 0, -1, 0>>, <<0, 0, 0, -1>>}
SameUpToPhase(p, q) == \E u \in Units : \A s \in DOMAIN p : ZMul(u, p[s]) = q[s]
=============================================================================
