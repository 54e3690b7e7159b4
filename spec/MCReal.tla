------------------------------- MODULE MCReal -------------------------------
(* The arithmetic of spec/Real.tla with numbers of three bits: every         *)
(* operation has one result, exact if there is an exact one.                 *)
EXTENDS Real, FiniteSets, TLC
CONSTANTS P, E, Q
VARIABLES a, b, mode

Mant == {BNat(m) : m \in (2 ^ (P - 1))..(2 ^ P - 1)}
Floats(lo, hi) == {Num(s, m, e) : s \in {0, 1}, m \in Mant, e \in lo..hi}
Small == Floats(-E, E)
Wide == Floats(-4 * E - 2 * P, 4 * E + 2 * P)
Special == {Nan, Inf(0), Inf(1), Zero(0), Zero(1)}
All == Wide \cup Special

Init == mode = "start" /\ a = Nan /\ b = Nan
Next == \/ /\ mode = "start"
           /\ \/ mode' = "left" /\ a' \in Small \cup Special /\ b' = Nan
              \/ mode' = "ratio" /\ a' \in 1..Q /\ b' \in 1..Q
        \/ mode = "left" /\ mode' = "ops" /\ a' = a /\ b' \in Small \cup Special
Spec == Init /\ [][Next]_<<a, b, mode>>

One(R(_)) == Cardinality({r \in All : R(r)}) = 1
Functional == mode = "ops" =>
  /\ One(LAMBDA r : SumIs(a, b, r, P)) /\ One(LAMBDA r : ProdIs(a, b, r, P)) /\ One(LAMBDA r : QuotIs(a, b, r, P))
Commutes == mode = "ops" => \A r \in All : /\ SumIs(a, b, r, P) <=> SumIs(b, a, r, P)
                                           /\ ProdIs(a, b, r, P) <=> ProdIs(b, a, r, P)
\* Exact results: x + 0, x * 1, x / 1, x - x, (x y) / y when x y is exact, and squares
OneP == Num(0, BNat(2 ^ (P - 1)), 1 - P)
Identities == (mode = "ops" /\ Finite(a)) =>
  /\ SumIs(a, Zero(0), a, P) /\ ProdIs(a, OneP, a, P) /\ QuotIs(a, OneP, a, P) /\ SumIs(a, Neg(a), Zero(0), P)
  /\ QuotIs(a, a, OneP, P)
  /\ \A r \in All : PowIs(a, 4, r, P) <=> ProdIs(a, a, r, P)
  /\ \A r \in All : PowIs(a, -2, r, P) <=> QuotIs(OneP, a, r, P)
  /\ PowIs(a, 0, OneP, P) /\ PowIs(a, 2, a, P)
\* The square root of an exact square
Roots == (mode = "ops" /\ Finite(a)) => \A r \in Wide : PowIs(a, 4, r, P) /\ BMul(a.m, a.m) \in {Shl(r.m, j) : j \in 0..P} => PowIs(r, 1, Abs(a), P)
Order == (mode = "ops") =>
  /\ Unordered(a, b) \/ Cmp(a, b) = -Cmp(b, a)
  /\ Rel("lt", a, b) = Rel("gt", b, a) /\ Rel("le", a, b) = Rel("ge", b, a)
  /\ Rel("eq", a, b) = ~Rel("ne", a, b)
  /\ (Finite(a) /\ Finite(b)) => (Rel("lt", a, b) <=> \E r \in Wide : r.s = 1 /\ SumIs(a, Neg(b), r, P))
Rounding == mode = "ratio" =>
  /\ One(LAMBDA r : r.k = "num" /\ r.s = 0 /\ Finite(r) /\ Nearest(0, BNat(a), BNat(b), 0, r, P))
  \* no other number is closer
  /\ \A r \in Wide : (r.s = 0 /\ r.e >= -8 /\ r.e <= 8 /\ Nearest(0, BNat(a), BNat(b), 0, r, P)) =>
       \A t \in Floats(-8, 8) : LET dist(x) == Dist(Shl(BNat(a), 8), BMul(Shl(x.m, x.e + 8), BNat(b)))
                                IN t.s = 1 \/ BLeq(dist(r), dist(t))
=============================================================================
