---------------------------- MODULE MCSubscripts ----------------------------
(* Writing with symbols of their own can be read, and nothing else can: for *)
(* all lists of up to two tensors with up to two of three indices and all   *)
(* symbols.                                                                 *)
EXTENDS Subscripts, TLC
VARIABLE w
Lists == {<<>>} \cup {<<x>> : x \in 1..3} \cup {<<x, y>> : x, y \in 1..3}
Symbols == {97, 98, 99, Comma}
Init == w = <<>>
Next == /\ w = <<>>
        /\ \E a, b, out \in Lists, s \in [1..3 -> Symbols] : w' = <<<<a, b>>, out, s>>
Spec == Init /\ [][Next]_w
Used == LET all == Flat(w[1]) \o w[2] IN {all[j] : j \in DOMAIN all}
Law == w # <<>> =>
         LET own == /\ \A x, y \in Used : x # y => w[3][x] # w[3][y]
                    /\ \A x \in Used : Valid(w[3][x])
         IN Reads(Write(w[1], w[2], w[3]), w[1], w[2]) = own
=============================================================================
