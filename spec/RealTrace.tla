----------------------------- MODULE RealTrace ------------------------------
(* Operations on numbers recorded from the real code: [op, a, b, r, ...].    *)
EXTENDS Real, TraceBase

VARIABLES i
vars == <<i>>

Rels(c) == UNION {Clause(c.rel[op] = Rel(op, c.a, c.b), "C26:" \o op) : op \in {"eq", "ne", "lt", "le", "gt", "ge"}}
WellFormed(x, P) == x.k # "num" \/ x.m = BZero \/ Normal(x.m, P)

Clauses(c) ==
  LET P == c.prec IN
  CASE c.error # "" -> {"C26:error"}
    [] c.op = "add" -> Clause(SumIs(c.a, c.b, c.r, P), "C26:sum")
    [] c.op = "sub" -> Clause(SumIs(c.a, Neg(c.b), c.r, P), "C26:difference")
    [] c.op = "mul" -> Clause(ProdIs(c.a, c.b, c.r, P), "C26:product")
    [] c.op = "div" -> Clause(QuotIs(c.a, c.b, c.r, P), "C26:quotient")
    [] c.op = "pow" -> \* with a mantissa without trailing zeros
         IF Finite(c.a) /\ Shl(c.odd, c.zeros) # c.a.m THEN {"C26:bad-record"}
         ELSE Clause(PowIs(IF Finite(c.a) THEN [c.a EXCEPT !.m = c.odd, !.e = @ + c.zeros] ELSE c.a, c.h, c.r, P), "C26:power")
    [] c.op = "neg" -> Clause(c.r = Neg(c.a), "C26:negative")
    [] c.op = "abs" -> Clause(c.r = Abs(c.a), "C26:absolute-value")
    \* the same number: positive sign, copies, pickles, and hexadecimal text
    [] c.op = "same" -> Clause(c.r = c.a /\ WellFormed(c.a, P), "C26:same")
    [] c.op = "rel" -> Rels(c)
    [] c.op = "class" ->
         Clause(c.nan = (c.a.k = "nan"), "C26:isnan") \cup Clause(c.inf = (c.a.k = "inf"), "C26:isinf")
         \cup Clause(c.a.k = "nan" \/ c.sign = (c.a.s = 1), "C26:signbit")
    [] c.op = "double" -> Clause(DoubleOf(c.a, c.r, P), "C26:to-double")
    [] c.op = "read" -> Clause(FromDecimal(c.s, c.digits, c.places, c.r, P), "C26:from-text")
    [] c.op = "write" -> Clause(ToDecimal(c.a, c.s, c.digits, c.places), "C26:to-text")
    [] c.op = "refuse" -> Clause(c.refused, "C26:malformed-text")

Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
