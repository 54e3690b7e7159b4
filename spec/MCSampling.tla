----------------------------- MODULE MCSampling -----------------------------
(* The gate-by-gate process on all circuits of Depth gates over N qubits:   *)
(* after every gate the probability of every bitstring is the squared       *)
(* amplitude.  Probabilities are fractions <<numerator, denominator>> of    *)
(* elements of Z[sqrt 2].                                                   *)
EXTENDS Sampling
CONSTANTS N, Depth

One(q, m) == [q |-> q, m |-> m]
H == <<<<ZOne, ZOne>>, <<ZOne, <<-1, 0, 0, 0>>>>>>
T == <<<<ZOne, ZZero>>, <<ZZero, <<0, 1, 0, 0>>>>>>
X == <<<<ZZero, ZOne>>, <<ZOne, ZZero>>>>
SX == <<<<<<1, 0, 1, 0>>, <<1, 0, -1, 0>>>>, <<<<1, 0, -1, 0>>, <<1, 0, 1, 0>>>>>>
CX == <<<<ZOne, ZZero, ZZero, ZZero>>, <<ZZero, ZOne, ZZero, ZZero>>, <<ZZero, ZZero, ZZero, ZOne>>, <<ZZero, ZZero, ZOne, ZZero>>>>
CZ == <<<<ZOne, ZZero, ZZero, ZZero>>, <<ZZero, ZOne, ZZero, ZZero>>, <<ZZero, ZZero, ZOne, ZZero>>, <<ZZero, ZZero, ZZero, <<-1, 0, 0, 0>>>>>>
Gates == {One(<<j>>, m) : j \in 1..N, m \in {H, T, X, SX}} \cup {One(<<i, j>>, m) : i \in 1..N, j \in 1..N, m \in {CX, CZ}}
Good == {g \in Gates : Len(g.q) = 1 \/ g.q[1] # g.q[2]}

VARIABLES gates, psi, w
vars == <<gates, psi, w>>
Init == gates = <<>> /\ psi = Zeros(N) /\ w = [s \in 1..(2 ^ N) |-> <<IF s = 1 THEN ZOne ELSE ZZero, ZOne>>]
FAdd(a, b) == IF a[1] = ZZero THEN b ELSE IF b[1] = ZZero THEN a
              ELSE IF a[2] = b[2] THEN <<ZAdd(a[1], b[1]), a[2]>> ELSE <<ZAdd(ZMul(a[1], b[2]), ZMul(b[1], a[2])), ZMul(a[2], b[2])>>
FMul(a, b) == IF a[1] = ZZero \/ b[1] = ZZero THEN <<ZZero, ZOne>> ELSE <<ZMul(a[1], b[1]), ZMul(a[2], b[2])>>
After(g) ==
  LET p == Apply(N, psi, g)
      j == g.q[1]
  IN [y \in 1..(2 ^ N) |->
        IF Classical(g) THEN w[CHOOSE s \in 1..(2 ^ N) : Moves(N, g, s) = y]
        ELSE LET o == Other(N, y, j)
                 tot == ZAdd(Norm(p[y]), Norm(p[o]))
             IN IF tot = ZZero THEN <<ZZero, ZOne>>
                ELSE FMul(FAdd(w[y], w[o]), <<Norm(p[y]), tot>>)]
Next == Len(gates) < Depth /\ \E g \in Good : gates' = Append(gates, g) /\ psi' = Apply(N, psi, g) /\ w' = After(g)
Spec == Init /\ [][Next]_vars

\* Scale of a state: the sum of all squared amplitudes
Scale == ZSum([s \in DOMAIN psi |-> Norm(psi[s])])
Law == \A s \in DOMAIN w : ZMul(w[s][1], Scale) = ZMul(w[s][2], Norm(psi[s]))
\* A bitstring that has been reached has a nonzero probability, so that the next draw is well defined
Defined == \A s \in DOMAIN w : w[s][1] # ZZero => psi[s] # ZZero
=============================================================================
