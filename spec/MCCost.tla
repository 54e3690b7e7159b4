------------------------------- MODULE MCCost -------------------------------
(* Laws of costs and widths, for all small models.                           *)
EXTENDS CostModel, TLC
CONSTANTS N, D, C
VARIABLES m, stage
I == 1..N
Init == stage = 0 /\ m = [dims |-> <<>>, sparse |-> {}, nproj |-> 0]
Next == \/ stage = 0 /\ stage' = 1 /\ \E d \in [I -> 1..D] : m' = [m EXCEPT !.dims = d]
        \/ stage = 1 /\ stage' = 2 /\ \E s \in SUBSET I, c \in 0..C : m' = [m EXCEPT !.sparse = s, !.nproj = c]
Spec == Init /\ [][Next]_<<m, stage>>
Plain == [m EXCEPT !.nproj = 0]
Ready == stage = 2
Monotone == Ready => \A X, Y \in SUBSET I : X \subseteq Y => BLeq(BSize(m, X), BSize(m, Y))
Capped == Ready => \A X \in SUBSET I : /\ BLeq(BSize(m, X), BSize(Plain, X))
                                       /\ (m.nproj > 0 /\ X \subseteq m.sparse) => BLeq(BSize(m, X), BNat(m.nproj))
                                       /\ X \cap m.sparse = {} => BSize(m, X) = BSize(Plain, X)
\* Without a cap sizes multiply; a cap only ever makes the union smaller
Product == Ready => \A X \in SUBSET I : \A Y \in SUBSET (I \ X) :
             /\ BSize(Plain, X \cup Y) = BMul(BSize(Plain, X), BSize(Plain, Y))
             /\ BLeq(BSize(m, X \cup Y), BMul(BSize(m, X), BSize(m, Y)))
\* A contraction costs at least the size of what it takes part in, and the slices can only add to it
Bounds == Ready => \A A, B \in SUBSET I : \A x \in I :
            /\ BLeq(TensorSize(m, A), ContractionSize(m, A, B, {}))
            /\ BLeq(ContractionSize(m, A, B, {}), ContractionSize(m, A, B, {x}))
            /\ ContractionSize(m, A, B, {}) = ContractionSize(m, B, A, {})
\* Small numbers agree with big ones
Small == Ready => \A X \in SUBSET I : BSize(m, X) = BNat(Size(m, X))
=============================================================================
