------------------------------- MODULE Equal -------------------------------
(* Equality of values which go through the same life (C33).                 *)
(*                                                                          *)
(* A value is everything which can be observed of it, a sequence of parts.  *)
(* Two values are equal exactly if all their parts are; equality is thus    *)
(* reflexive, symmetric and transitive, a copy is equal to its original,    *)
(* and equal values stay equal when the same is done to both.               *)
EXTENDS Integers, Sequences, FiniteSets

Same(a, b) == a = b

\* What the operators have to answer: a == b, b == a, a != b, b != a, a == a, b == b
Answers(a, b) == <<Same(a, b), Same(b, a), ~Same(a, b), ~Same(b, a), TRUE, TRUE>>

AnswerClauses(a, b, r) ==
  (IF r[5] /\ r[6] THEN {} ELSE {"reflexive"})
  \cup (IF r[1] = r[2] THEN {} ELSE {"symmetric"})
  \cup (IF r[3] = ~r[1] /\ r[4] = ~r[2] THEN {} ELSE {"negation"})
  \cup (IF Same(a, b) /\ ~r[1] THEN {"same-but-unequal"} ELSE {})
  \cup (IF ~Same(a, b) /\ r[1] THEN {"different-but-equal"} ELSE {})

\* (a, b) before and after "op"
StepClauses(op, a, b, a2, b2) ==
  CASE op = "look" -> (IF a2 = a /\ b2 = b THEN {} ELSE {"changed"})
    [] op = "both" -> (IF Same(a, b) => Same(a2, b2) THEN {} ELSE {"parted"})
    [] op = "one" -> (IF b2 = b THEN {} ELSE {"shared"})
    [] op = "copy" -> (IF a2 = a /\ Same(a2, b2) THEN {} ELSE {"copy"})
    [] OTHER -> {"operation"}
=============================================================================
