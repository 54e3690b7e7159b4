------------------------------- MODULE MCCli -------------------------------
(* Every way of writing an assignment of three parameters is read back.     *)
EXTENDS Cli, TLC
Names == <<<<97>>, <<98, Under, 99>>, <<100>>>>
Values == {<<50, Eq, 51>>, True}
Order == <<Names[3], Names[1]>>
Command == <<111>>
Dashed(s) == [j \in DOMAIN s |-> IF s[j] = Under THEN Dash ELSE s[j]]
\* Writings of one parameter; a bare option must not swallow the next word
Writings(j, v) == {Glued(Names[j], v), Apart(Names[j], v), Glued(Dashed(Names[j]), v), Apart(Dashed(Names[j]), v)}
VARIABLE w
Init == w = <<>>
\* pieces: permutation of options and the words without name (in their order)
Next == /\ w = <<>>
        /\ \E P \in SUBSET (1..3), val \in [1..3 -> Values], free \in SUBSET {1, 3}, o \in Permutations(1..4) :
             \* parameters without name come after the command, in Order
             /\ \A j \in free : j \in P
             /\ 1 \in free => 3 \notin (1..3) \ P  \* no gap before: parameter 3 is given somehow
             /\ \E wr \in {f \in [1..3 -> UNION {Writings(j, val[j]) : j \in 1..3}] : \A j \in 1..3 : f[j] \in Writings(j, val[j])} :
                  LET tail == <<Command>> \o (IF 3 \in free THEN <<val[3]>> ELSE <<>>) \o (IF 1 \in free THEN <<val[1]>> ELSE <<>>)
                      piece(x) == IF x = 4 THEN tail ELSE IF x \in P \ free THEN wr[x] ELSE <<>>
                      seq == [j \in 1..4 |-> CHOOSE x \in 1..4 : o[x] = j]
                  IN w' = <<piece(seq[1]) \o piece(seq[2]) \o piece(seq[3]) \o piece(seq[4]), {<<Names[j], val[j]>> : j \in P}>>
Spec == Init /\ [][Next]_w
ReadBack == w # <<>> => LET p == Parse(w[1], Order) IN p.command = Command /\ p.set = w[2]
\* An option without a value, at the end or before another option
BareLaw == \A v \in Values :
             /\ Parse(<<Command>> \o Bare(Names[2]), Order).set = {<<Names[2], True>>}
             /\ Parse(Bare(Dashed(Names[2])) \o Glued(Names[1], v) \o <<Command>>, Order).set = {<<Names[2], True>>, <<Names[1], v>>}
=============================================================================
