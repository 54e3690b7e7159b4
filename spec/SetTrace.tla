------------------------------ MODULE SetTrace ------------------------------
(* Histories of operations on a pool of ordered sets ("ordered") or bitsets  *)
(* ("bits"), recorded from the real code.  Every event which makes a set     *)
(* appends it to the pool; the views of all sets are read again at the end.  *)
EXTENDS Sets, TraceBase

VARIABLES i, k, pool
vars == <<i, k, pool>>

Pairs(q) == [j \in DOMAIN q |-> <<q[j][1], q[j][2]>>]

\* ------------------------------------------------------------ ordered sets
OView(v, want) ==
  Clause(Pairs(v.seq) = want, "C22:members-or-order")
  \cup Clause(v.len = Len(want), "C22:length")
  \cup Clause(v.truth = (want # <<>>), "C22:truth")
  \cup Clause(v.type, "C22:type")
  \cup Clause(v.hash, "C22:hash")
  \cup Clause(v.repr, "C22:repr")

OOther(e) == IF e.j = 0 THEN OMake(Pairs(e.lit)) ELSE pool[e.j]
OMakes == {"union", "intersection", "difference", "symmetric_difference"}

OWant(e) ==
  CASE e.op = "new" -> OMake(Pairs(e.lit))
    [] e.op \in {"copy", "pickle", "remake", "deepcopy"} -> pool[e.i]
    [] e.op \in OMakes -> OOp(e.op, pool[e.i], OOther(e))
    [] OTHER -> <<>>

OClauses(e) ==
  CASE e.error # "" -> {"C22:error"}
    [] e.op = "refuse" -> Clause(e.refused, "C22:not-refused")
    [] e.refused -> {"C22:refused"}
    [] e.op = "in" -> Clause(e.b = OHas(pool[e.i], e.v), "C22:membership")
    [] e.op = "again" -> OView(e.view, pool[e.i])
    [] e.op = "samehash" -> Clause(OMem(pool[e.i]) = OMem(pool[e.j]) => e.b, "C22:hash")
    [] e.op \in {"new", "copy", "pickle", "remake", "deepcopy"} \cup OMakes -> OView(e.view, OWant(e))
    [] OTHER -> Clause(e.b = Pred(e.op, OMem(pool[e.i]), OMem(OOther(e))), "C22:" \o e.op)
ONew(e) == IF e.op \in {"new", "copy", "pickle", "remake", "deepcopy"} \cup OMakes THEN Append(pool, OWant(e)) ELSE pool

\* ------------------------------------------------------------------ bitsets
BView(v, w) ==
  Clause(v.n = w.n, "C23:size")
  \cup Clause(v.pos = Ascending(w.s), "C23:positions")
  \cup Clause(v.visit = Ascending(w.s), "C23:visit")
  \cup Clause(v.str = ToBits(w), "C23:text")
  \cup Clause(v.list = ToBits(w), "C23:bits")
  \cup Clause(v.count = Cardinality(w.s), "C23:count")

BAccepted(e) ==
  CASE e.from = "positions" -> e.n >= 0 /\ FromPositions(e.n, e.q)
    [] e.from = "bits" -> S(e.q) \subseteq {0, 1} /\ (e.n = -1 \/ e.n = Len(e.q))
    [] e.from = "nothing" -> e.n \in {-1, 0}
BMade(e) ==
  CASE e.from = "positions" -> Bits(e.n, S(e.q))
    [] e.from = "bits" -> OfBits(e.q)
    [] e.from = "nothing" -> Bits(0, {})

BOps == {"and", "or", "xor", "sub"}
BWant(e) ==
  CASE e.op = "new" -> IF BAccepted(e) THEN BMade(e) ELSE Bits(0, {})
    [] e.op = "not" -> BNot(pool[e.i])
    [] e.op \in {"copy", "pickle", "deepcopy"} -> pool[e.i]
    [] e.op \in BOps -> IF Combines(pool[e.i], pool[e.j]) THEN BOp(e.op, pool[e.i], pool[e.j]) ELSE Bits(0, {})

BClauses(e) ==
  CASE e.error # "" -> {"C23:error"}
    [] e.op = "new" -> IF e.refused THEN Clause(~BAccepted(e), "C23:refused")
                       ELSE IF BAccepted(e) THEN BView(e.view, BMade(e)) ELSE {"C23:accepted"}
    [] e.op \in BOps -> IF Combines(pool[e.i], pool[e.j])
                        THEN IF e.refused THEN {"C23:refused"} ELSE BView(e.view, BWant(e))
                        ELSE Clause(e.refused, "C23:sizes-differ")
    [] e.op \in {"not", "copy", "pickle", "deepcopy"} -> IF e.refused THEN {"C23:refused"} ELSE BView(e.view, BWant(e))
    [] e.op = "again" -> IF e.refused THEN {"C23:refused"} ELSE BView(e.view, pool[e.i])
    [] e.op = "get" -> IF e.p \in Universe(pool[e.i].n)
                       THEN Clause(~e.refused /\ e.b = (e.p \in pool[e.i].s), "C23:bit")
                       ELSE Clause(e.refused, "C23:bit-outside")
    [] e.op \in {"eq", "ne"} -> Clause(~e.refused /\ e.b = ((e.op = "eq") = (pool[e.i] = pool[e.j])), "C23:" \o e.op)
    \* disjointness makes sense for any two sets of positions
    [] e.op = "isdisjoint" -> IF e.refused THEN Clause(~Combines(pool[e.i], pool[e.j]), "C23:refused")
                              ELSE Clause(e.b = Pred(e.op, pool[e.i].s, pool[e.j].s), "C23:isdisjoint")
    [] OTHER -> IF Combines(pool[e.i], pool[e.j])
                THEN Clause(~e.refused /\ e.b = Pred(e.op, pool[e.i].s, pool[e.j].s), "C23:" \o e.op)
                ELSE Clause(e.refused, "C23:sizes-differ")
\* The pool only grows by sets which were made
BNew(e) == IF e.op \in {"new", "not", "copy", "pickle", "deepcopy"} \cup BOps /\ ~e.refused THEN Append(pool, BWant(e)) ELSE pool

Init == i = 0 /\ k = 0 /\ pool = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1 /\ k' = 0 /\ pool' = <<>>
Event == /\ i > 0
         /\ k < Len(Cases[i].ev)
         /\ i' = i /\ k' = k + 1
         /\ LET e == Cases[i].ev[k + 1]
            IN IF Cases[i].what = "ordered"
               THEN Report(i, k + 1, OClauses(e)) /\ pool' = TLCEval(ONew(e))
               ELSE Report(i, k + 1, BClauses(e)) /\ pool' = TLCEval(BNew(e))
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
