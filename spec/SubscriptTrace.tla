--------------------------- MODULE SubscriptTrace ---------------------------
(* Recorded subscripts and symbols (C29).                                   *)
EXTENDS Subscripts, TraceBase

Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE CASE c.kind = "text" -> Clause(Reads(c.text, c.ts, c.out), "subscripts")
         [] c.kind = "symbols" -> Clause(Distinct(c.codes), "distinct") \cup Clause(\A j \in DOMAIN c.codes : Valid(c.codes[j]), "valid")

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
