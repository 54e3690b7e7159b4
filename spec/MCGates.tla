------------------------------ MODULE MCGates -------------------------------
(* Laws of comparing gates, for all triples of gates of a small library     *)
(* over Qubits qubits.                                                      *)
EXTENDS Gates, TLC
CONSTANT Qubits
VARIABLE t
i1 == <<0, 0, 1, 0>>
w == <<0, 1, 0, 0>>
neg(x) == [k \in 1..4 |-> -x[k]]
M1(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
Diag(q) == [r \in DOMAIN q |-> [s \in DOMAIN q |-> IF r = s THEN q[r] ELSE ZZero]]
Perm(p) == [r \in DOMAIN p |-> [s \in DOMAIN p |-> IF p[r] = s THEN ZOne ELSE ZZero]]
One == {M1(ZZero, ZOne, ZOne, ZZero), M1(ZOne, ZOne, ZOne, neg(ZOne)), Diag(<<ZOne, i1>>), Diag(<<w, <<0, 0, 0, 1>>>>)}
Two == {Perm(<<1, 2, 4, 3>>), Diag(<<ZOne, ZOne, ZOne, neg(ZOne)>>), Perm(<<1, 3, 2, 4>>), Perm(<<1, 4, 3, 2>>)}
Gates1 == {[q |-> <<j>>, m |-> m] : j \in 1..Qubits, m \in One}
Gates2 == {[q |-> <<x[1], x[2]>>, m |-> m] : x \in {y \in (1..Qubits) \X (1..Qubits) : y[1] # y[2]}, m \in Two}
All == Gates1 \cup Gates2
Init == t = <<>>
Next == Len(t) < 3 /\ \E g \in All : t' = Append(t, g)
Spec == Init /\ [][Next]_t
Swapped(g) == [q |-> <<g.q[2], g.q[1]>>,
               m |-> LET p == <<1, 3, 2, 4>> IN [r \in 1..4 |-> [s \in 1..4 |-> g.m[p[r]][p[s]]]]]
Symmetric == Len(t) = 2 => /\ Commutes(t[1], t[2]) = Commutes(t[2], t[1])
                           /\ SameGate(t[1], t[2]) = SameGate(t[2], t[1])
                           /\ ~Shares(t[1], t[2]) => Commutes(t[1], t[2])
                           /\ SameGate(t[1], t[2]) => Commutes(t[1], t[2])
Itself == Len(t) = 1 => /\ GateOk(t[1]) /\ SameGate(t[1], t[1]) /\ Commutes(t[1], t[1])
                        /\ Len(t[1].q) = 2 => SameGate(t[1], Swapped(t[1]))
\* The same gates commute with the same gates
Transitive == Len(t) = 3 /\ SameGate(t[1], t[2]) =>
                /\ SameGate(t[2], t[3]) = SameGate(t[1], t[3])
                /\ Commutes(t[2], t[3]) = Commutes(t[1], t[3])
=============================================================================
