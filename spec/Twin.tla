-------------------------------- MODULE Twin --------------------------------
(* Runs which have to be indistinguishable: every run of a case is the      *)
(* sequence of everything observable after each update.  The first one is   *)
(* the reference; name[r] says how run r was made (a second optimizer, one  *)
(* which was looked at, interrupted and restored from its pickled form, or  *)
(* one in another process).  Restored copies have to be equal (same[r]).    *)
EXTENDS Integers, Sequences, TraceBase

Differs(a, b) ==
  IF Len(a) # Len(b) THEN {"length"}
  ELSE LET bad == {j \in DOMAIN a : a[j] # b[j]}
       IN IF bad = {} THEN {}
          ELSE LET j == CHOOSE x \in bad : \A y \in bad : x <= y
               IN {f \in DOMAIN a[j] : f \notin DOMAIN b[j] \/ a[j][f] # b[j][f]}

Clauses(c) ==
  IF c.error # "" THEN {"C07:error"}
  ELSE UNION {{"C07:" \o c.names[r] \o "-" \o f : f \in Differs(c.runs[1], c.runs[r])} : r \in 2..Len(c.runs)}
       \cup {"C07:" \o c.names[r] \o "-unequal" : r \in {x \in DOMAIN c.runs : ~c.same[x]}}

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
