------------------------------ MODULE CostTrace -----------------------------
(* Answers of the cost models recorded from the real code.                   *)
(*  "cost"   [m, A, B, sl, val, blo, bhi, bits]   val: the reported natural;   *)
(*           blo..bhi the naturals it can stand for, bits the precision       *)
(*  "width"  [m, A, blo, bhi]      the sizes the reported width can stand for  *)
(*  "delta"  [m, A, x, up, blo, bhi, den]  size ratio in blo/den .. bhi/den    *)
(*  "model"  [p, ok]               construction                               *)
(*  "equal"  [b, want]             equality and copies                        *)
EXTENDS CostModel, TraceBase

VARIABLES i
vars == <<i>>

ToM(c) == [dims |-> c.m.dims, sparse |-> S(c.m.sparse), nproj |-> c.m.nproj]

Clauses(c) ==
  CASE c.error # "" -> {"C24:error"}
    [] c.op = "model" -> Clause(c.ok = ValidModel(c.p), "C24:accepted-or-refused")
    [] c.op = "missing" -> Clause(~c.ok, "C24:missing-dimension")
    [] c.op = "equal" -> Clause(c.b = c.want, "C24:equality")
    [] c.op = "cost" ->
         LET v == ContractionSize(ToM(c), S(c.A), S(c.B), S(c.sl))
         IN IF BLeq(v, BPow(<<2>>, c.bits)) THEN Clause(c.val = v, "C24:cost")
            ELSE Clause(BLeq(c.blo, v) /\ BLeq(v, c.bhi), "C24:cost")
    [] c.op = "width" ->
         LET v == TensorSize(ToM(c), S(c.A))
         IN Clause(BLeq(c.blo, v) /\ BLeq(v, c.bhi), "C24:width")
    [] c.op = "delta" ->
         LET a == TensorSize(ToM(c), S(c.A))
             b == TensorSize(ToM(c), Toggle(S(c.A), c.x))
             \* the width grows with an index and shrinks without it
             lo == IF c.up THEN a ELSE b
             hi == IF c.up THEN b ELSE a
         IN Clause(c.up = (c.x \notin S(c.A)) \/ lo = hi, "C24:sign-of-change")
            \cup Clause(BLeq(BMul(lo, c.blo), BMul(hi, c.den)) /\ BLeq(BMul(hi, c.den), BMul(lo, c.bhi)), "C24:change-of-width")

Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
