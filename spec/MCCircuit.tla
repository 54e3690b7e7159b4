----------------------------- MODULE MCCircuit ------------------------------
(* Cancellation of gates while a circuit is read: a new gate removes the    *)
(* last gate which is its inverse (up to a phase) if it commutes with every *)
(* gate in between; otherwise it is appended.  The circuit stays the same   *)
(* up to a global phase, for all circuits of up to Depth gates.             *)
EXTENDS Circuit, TLC
CONSTANTS Depth, Qubits
VARIABLES kept, psi
n == Qubits
i1 == <<0, 0, 1, 0>>
w == <<0, 1, 0, 0>>
neg(x) == [k \in 1..4 |-> -x[k]]
M1(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
Diag(q) == [r \in DOMAIN q |-> [s \in DOMAIN q |-> IF r = s THEN q[r] ELSE ZZero]]
One == {M1(ZZero, ZOne, ZOne, ZZero), M1(ZOne, ZOne, ZOne, neg(ZOne)),
        Diag(<<ZOne, i1>>), Diag(<<ZOne, neg(i1)>>), Diag(<<ZOne, w>>), Diag(<<w, ZOne>>)}
Perm(p) == [r \in DOMAIN p |-> [s \in DOMAIN p |-> IF p[r] = s THEN ZOne ELSE ZZero]]
Two == {Perm(<<1, 2, 4, 3>>), Diag(<<ZOne, ZOne, ZOne, neg(ZOne)>>), Perm(<<1, 3, 2, 4>>)}
Gates == {[q |-> <<j>>, m |-> m] : j \in 1..n, m \in One}
         \cup {[q |-> <<jk[1], jk[2]>>, m |-> m] : jk \in {x \in (1..n) \X (1..n) : x[1] # x[2]}, m \in Two}
\* columns of a sequence of gates: one state per basis input (2 qubits); the identity has scaled columns
Cols(gs) == [a \in 1..(2 ^ n) |-> Run(n, [s \in 1..(2 ^ n) |-> IF s = a THEN ZOne ELSE ZZero], gs)]
Flat(c) == FoldLeft(LAMBDA x, y : x \o y, <<>>, c)
\* up to positive scale: H H = 2 I, so compare after scaling by powers of two
Scale(k, p) == [s \in DOMAIN p |-> [j \in 1..4 |-> k * p[s][j]]]
Equal(p, q) == \E k \in {1, 2, 4, 8, 16, 32} : SameUpToPhase(p, Scale(k, q)) \/ SameUpToPhase(Scale(k, p), q)
Id == Flat(Cols(<<>>))
IsInv(g, h) == {g.q[j] : j \in DOMAIN g.q} = {h.q[j] : j \in DOMAIN h.q} /\ Equal(Flat(Cols(<<g, h>>)), Id)
Commute(g, h) == Flat(Cols(<<g, h>>)) = Flat(Cols(<<h, g>>))
Cancel(gs, g) ==
  LET hit == {j \in DOMAIN gs : IsInv(gs[j], g) /\ \A k \in (j + 1)..Len(gs) : ~IsInv(gs[k], g) /\ Commute(gs[k], g)}
  IN IF hit = {} THEN Append(gs, g) ELSE LET j == CHOOSE x \in hit : TRUE IN SubSeq(gs, 1, j - 1) \o SubSeq(gs, j + 1, Len(gs))
Init == kept = <<>> /\ psi = <<>>
Next == /\ Len(psi) < Depth
        /\ \E g \in Gates : kept' = TLCEval(Cancel(kept, g)) /\ psi' = TLCEval(Append(psi, g))
Spec == Init /\ [][Next]_<<kept, psi>>
Same == Equal(Flat(Cols(psi)), Flat(Cols(kept)))
=============================================================================
