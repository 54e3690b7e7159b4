------------------------------ MODULE MCEqual ------------------------------
(* All lives of two values with K parts; what is done to a value depends on *)
(* its parts only ("Step", any of a few functions, chosen at the start).    *)
EXTENDS Equal, TLC
CONSTANTS K, M
VARIABLES a, b, f, last, old
vars == <<a, b, f, last, old>>
Val == [1..K -> 0..M]
\* what an update does: every part may depend on the others (here: on its neighbour)
Step(g, x) == [p \in 1..K |-> g[p][x[(p % K) + 1]]]
Init == /\ a \in Val /\ b \in Val /\ f \in [1..K -> [0..M -> 0..M]]
        /\ last = "look" /\ old = <<a, b>>
Do(op, a2, b2) == a' = a2 /\ b' = b2 /\ last' = op /\ old' = <<a, b>> /\ f' = f
Next == \/ Do("look", a, b)
        \/ Do("both", Step(f, a), Step(f, b))
        \/ Do("one", Step(f, a), b)
        \/ Do("copy", a, a)
Spec == Init /\ [][Next]_vars
\* the true answers are never blamed, and any other answer is
AnswersAreRight == AnswerClauses(a, b, Answers(a, b)) = {}
OthersAreWrong == \A r \in [1..6 -> BOOLEAN] : r # Answers(a, b) => AnswerClauses(a, b, r) # {}
\* nothing which can happen is blamed
LivesAreRight == StepClauses(last, old[1], old[2], a, b) = {}
=============================================================================
