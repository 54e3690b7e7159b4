------------------------------- MODULE Frame -------------------------------
(* What an operation may change (C34).                                      *)
(*                                                                          *)
(* A store of values which a program holds: containers and arrays of its    *)
(* own, and what the library gave to it.  A call changes nothing, except    *)
(* its receiver if it is a step of an optimizer or of a tree.  When the     *)
(* program changes a container of its own, nothing else changes but its     *)
(* other containers (which may hold this one) and raw results (lists which  *)
(* may share parts with the arguments); a change of an array can also be    *)
(* seen in the tensors which were made of it.                               *)
EXTENDS Integers, Sequences, FiniteSets

Own == {"container", "array"}
Raw == {"raw"}
Viewing == {"tensor", "network", "results"}
Stateful == {"optimizer", "tree"}

\* kinds: of the values in the store; op: "call", "step" or "own" on value r (0: no receiver)
May(kinds, op, r) ==
  CASE op = "call" -> {}
    [] op = "step" -> IF kinds[r] \in Stateful THEN {r} ELSE {}
    [] op = "own" -> IF kinds[r] \notin Own THEN {}
                     ELSE {j \in DOMAIN kinds : kinds[j] \in Own \cup Raw}
                              \cup (IF kinds[r] = "array" THEN {j \in DOMAIN kinds : kinds[j] \in Viewing} ELSE {})
    [] OTHER -> {}

\* old, new: the values before and after (new values are appended by calls)
Changed(old, new) == {j \in DOMAIN old : old[j] # new[j]}
FrameClauses(kinds, op, r, old, new) ==
  (IF Len(new) >= Len(old) THEN {} ELSE {"lost"})
  \cup (IF Len(new) < Len(old) \/ Changed(old, new) \subseteq May(kinds, op, r) THEN {} ELSE {"changed"})
=============================================================================
