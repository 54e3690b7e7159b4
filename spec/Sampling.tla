------------------------------ MODULE Sampling ------------------------------
(* Sampling bitstrings gate by gate (Bravyi, Gosset and Liu): a gate which  *)
(* permutes the basis states (up to phases) moves the bitstring; after any  *)
(* one-qubit gate the bit of its qubit is drawn anew, with the squared      *)
(* amplitudes of the circuit up to there for both values of the bit.        *)
EXTENDS Circuit

Norm(z) == ZMul(z, ZConj(z))
Units2 == Units \cup {ZZero}

\* One entry of magnitude one in every row and column (the scale of the matrix is that of its entries)
Classical(g) == /\ \A r \in DOMAIN g.m : Cardinality({c \in DOMAIN g.m : g.m[r][c] # ZZero}) = 1
                /\ \A c \in DOMAIN g.m : Cardinality({r \in DOMAIN g.m : g.m[r][c] # ZZero}) = 1
Samplable(gates) == \A t \in DOMAIN gates : Len(gates[t].q) = 1 \/ Classical(gates[t])

\* Where a classical gate moves position s
Moves(n, g, s) == LET r == CHOOSE r \in DOMAIN g.m : g.m[r][Local(n, g.q, s)] # ZZero IN Put(n, g.q, s, r)
Other(n, s, j) == SetBit(n, s, j, 1 - Bit(n, s, j))

Zeros(n) == [s \in 1..(2 ^ n) |-> IF s = 1 THEN ZOne ELSE ZZero]
\* The distribution which has to come out, in units of (squared scale)
Target(n, gates) == LET psi == Run(n, Zeros(n), gates) IN [s \in 1..(2 ^ n) |-> Norm(psi[s])]
=============================================================================
