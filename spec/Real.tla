-------------------------------- MODULE Real --------------------------------
(* Binary floating-point numbers of any precision and their arithmetic.      *)
(* A number is [k, s, m, e]: k is "nan", "inf" or "num"; s is 1 for a        *)
(* negative sign; a "num" has the value (-1)^s m 2^e with m a natural        *)
(* (BigNat) which is either zero or has exactly as many bits as the          *)
(* precision.  Results are described by relation: Nearest holds of the one   *)
(* number next to an exact rational (ties to an even last bit).              *)
EXTENDS BigNat

Nan == [k |-> "nan", s |-> 0, m |-> BZero, e |-> 0]
Inf(s) == [k |-> "inf", s |-> s, m |-> BZero, e |-> 0]
Zero(s) == [k |-> "num", s |-> s, m |-> BZero, e |-> 0]
Num(s, m, e) == [k |-> "num", s |-> s, m |-> m, e |-> e]

IsZero(x) == x.k = "num" /\ x.m = BZero
Finite(x) == x.k = "num" /\ x.m # BZero
Xor(s, t) == IF s = t THEN 0 ELSE 1

\* Powers of two, in steps of 2^64
LOCAL Two64 == BPow(<<2>>, 64)
LOCAL Steps == FoldLeft(LAMBDA acc, j : Append(acc, BMul(acc[Len(acc)], Two64)), <<BOne>>, [j \in 1..80 |-> j])
RECURSIVE ShlSmall(_, _)
LOCAL ShlSmall(a, n) == IF n >= 16 THEN ShlSmall(BMulSmall(a, 65536), n - 16) ELSE IF n = 0 THEN a ELSE BMulSmall(a, 2 ^ n)
\* a * 2^n
RECURSIVE Shl(_, _)
Shl(a, n) == IF n < 64 THEN ShlSmall(a, n)
             ELSE IF n > 5120 THEN Shl(BMul(a, Steps[81]), n - 5120)
             ELSE ShlSmall(BMul(a, Steps[(n \div 64) + 1]), n % 64)
Even(a) == a = BZero \/ a[1] % 2 = 0
BTwice(a) == BMulSmall(a, 2)
Dist(a, b) == IF BLeq(b, a) THEN BSub(a, b) ELSE BSub(b, a)

Normal(m, P) == BLeq(Shl(BOne, P - 1), m) /\ BLess(m, Shl(BOne, P))

\* r is the number of precision P nearest to (-1)^s (p/q) 2^k, with p, q > 0
Nearest(s, p, q, k, r, P) ==
  /\ r.k = "num" /\ r.s = s /\ Normal(r.m, P)
  /\ LET d == k - r.e
         x == IF d >= 0 THEN Shl(p, d) ELSE p                      \* x / y = exact value / 2^r.e
         y == IF d >= 0 THEN q ELSE Shl(q, -d)
         z == BMul(r.m, y)
         c == BCmp(BTwice(Dist(x, z)), y)
         \* below a power of two the numbers are twice as dense
         cl == BCmp(BMulSmall(Dist(x, z), 4), y)
     IN IF BLess(x, z) /\ r.m = Shl(BOne, P - 1)
        THEN cl <= 0
        ELSE c < 0 \/ (c = 0 /\ Even(r.m))

\* ------------------------------------------------- exact sums and products
\* Magnitudes over the common exponent
LOCAL Low(a, b) == IF a.e < b.e THEN a.e ELSE b.e
LOCAL At(a, e) == Shl(a.m, a.e - e)

SumIs(a, b, r, P) ==
  IF a.k = "nan" \/ b.k = "nan" THEN r.k = "nan"
  ELSE IF a.k = "inf" THEN IF b.k = "inf" /\ b.s # a.s THEN r.k = "nan" ELSE r = a
  ELSE IF b.k = "inf" THEN r = b
  ELSE IF IsZero(a) /\ IsZero(b) THEN r = Zero(IF a.s = 1 /\ b.s = 1 THEN 1 ELSE 0)
  ELSE IF IsZero(a) THEN r = b
  ELSE IF IsZero(b) THEN r = a
  ELSE LET e == Low(a, b)
           x == At(a, e)
           y == At(b, e)
       IN IF a.s = b.s THEN Nearest(a.s, BAdd(x, y), BOne, e, r, P)
          ELSE IF x = y THEN r = Zero(0)
          ELSE Nearest(IF BLess(y, x) THEN a.s ELSE b.s, Dist(x, y), BOne, e, r, P)

Neg(a) == IF a.k = "nan" THEN a ELSE [a EXCEPT !.s = 1 - a.s]
Abs(a) == IF a.k = "nan" THEN a ELSE [a EXCEPT !.s = 0]

ProdIs(a, b, r, P) ==
  IF a.k = "nan" \/ b.k = "nan" THEN r.k = "nan"
  ELSE IF a.k = "inf" \/ b.k = "inf"
       THEN IF IsZero(a) \/ IsZero(b) THEN r.k = "nan" ELSE r = Inf(Xor(a.s, b.s))
  ELSE IF IsZero(a) \/ IsZero(b) THEN r = Zero(Xor(a.s, b.s))
  ELSE Nearest(Xor(a.s, b.s), BMul(a.m, b.m), BOne, a.e + b.e, r, P)

QuotIs(a, b, r, P) ==
  IF a.k = "nan" \/ b.k = "nan" THEN r.k = "nan"
  ELSE IF a.k = "inf" THEN IF b.k = "inf" THEN r.k = "nan" ELSE r = Inf(Xor(a.s, b.s))
  ELSE IF b.k = "inf" THEN r = Zero(Xor(a.s, b.s))
  ELSE IF IsZero(b) THEN IF IsZero(a) THEN r.k = "nan" ELSE r = Inf(Xor(a.s, b.s))
  ELSE IF IsZero(a) THEN r = Zero(Xor(a.s, b.s))
  ELSE Nearest(Xor(a.s, b.s), a.m, b.m, a.e - b.e, r, P)

\* (the mantissa of a need not be normalized) a^(h/2), for positive or zero a, or an integer exponent (h even)
PowIs(a, h, r, P) ==
  LET odd == h % 4 = 2                       \* an odd integer exponent
      half == h % 2 = 1
      n == (IF h < 0 THEN -h ELSE h) \div (IF half THEN 1 ELSE 2)
      s == IF odd THEN a.s ELSE 0
  IN IF h = 0 THEN Nearest(0, BOne, BOne, 0, r, P)
     ELSE IF a.k = "nan" THEN r.k = "nan"
     ELSE IF a.k = "inf" THEN r = IF h > 0 THEN Inf(s) ELSE Zero(s)
     ELSE IF IsZero(a) THEN r = IF h > 0 THEN Zero(s) ELSE Inf(s)
     ELSE IF half /\ a.s = 1 THEN r.k = "nan"
     ELSE IF ~half
     THEN IF h > 0 THEN Nearest(s, BPow(a.m, n), BOne, n * a.e, r, P)
          ELSE Nearest(s, BOne, BPow(a.m, n), -n * a.e, r, P)
     ELSE \* (2m - 1)^2 <= 4 a^n / 2^2e <= (2m + 1)^2; a square root is never halfway between two numbers
       /\ r.k = "num" /\ r.s = 0 /\ Normal(r.m, P)
       /\ LET x == BPow(a.m, n)
              d == (IF h > 0 THEN n * a.e ELSE -n * a.e) + 2 - 2 * r.e
              num == IF h > 0 THEN x ELSE BOne
              den == IF h > 0 THEN BOne ELSE x
              L == IF d >= 0 THEN Shl(num, d) ELSE num
              D == IF d >= 0 THEN den ELSE Shl(den, -d)
              lo == BSub(BTwice(r.m), BOne)
              hi == BAdd(BTwice(r.m), BOne)
          IN BLeq(BMul(BMul(lo, lo), D), L) /\ BLeq(L, BMul(BMul(hi, hi), D))

\* ----------------------------------------------------------------- order
\* -1, 0, 1 for numbers which are not nan
LOCAL MagCmp(a, b) ==
  IF a.k = "inf" \/ b.k = "inf" THEN IF a.k = b.k THEN 0 ELSE IF a.k = "inf" THEN 1 ELSE -1
  ELSE IF IsZero(a) \/ IsZero(b) THEN IF IsZero(a) /\ IsZero(b) THEN 0 ELSE IF IsZero(a) THEN -1 ELSE 1
  ELSE IF a.e # b.e THEN IF a.e < b.e THEN -1 ELSE 1 ELSE BCmp(a.m, b.m)
Cmp(a, b) ==
  IF IsZero(a) /\ IsZero(b) THEN 0
  ELSE IF IsZero(a) THEN IF b.s = 1 THEN 1 ELSE -1
  ELSE IF IsZero(b) THEN IF a.s = 1 THEN -1 ELSE 1
  ELSE IF a.s # b.s THEN IF a.s = 1 THEN -1 ELSE 1
  ELSE IF a.s = 0 THEN MagCmp(a, b) ELSE MagCmp(b, a)
Unordered(a, b) == a.k = "nan" \/ b.k = "nan"
Rel(op, a, b) ==
  IF Unordered(a, b) THEN op = "ne"
  ELSE CASE op = "eq" -> Cmp(a, b) = 0 [] op = "ne" -> Cmp(a, b) # 0
         [] op = "lt" -> Cmp(a, b) < 0 [] op = "le" -> Cmp(a, b) <= 0
         [] op = "gt" -> Cmp(a, b) > 0 [] op = "ge" -> Cmp(a, b) >= 0

\* ---------------------------------------------------------------- doubles
\* r is the double nearest to x: 53 bits, or a multiple of 2^-1074 for numbers below 2^-1022 (given as such), or infinite beyond
\* the largest double and half of its last bit.
LOCAL Overflow(x) ==                                    \* x >= 2^1024 - 2^970
  LET top == BSub(Shl(BOne, 54), BOne)                  \* times 2^970
  IN IF x.e >= 970 THEN BLeq(top, Shl(x.m, x.e - 970)) ELSE BLeq(Shl(top, 970 - x.e), x.m)
DoubleOf(x, r, P) ==
  IF ~Finite(x) THEN IF x.k = "nan" THEN r.k = "nan" ELSE r = x
  ELSE LET top == x.e + P IN                          \* 2^(top-1) <= |x| < 2^top
     IF top > 1025 THEN r = Inf(x.s)
     ELSE IF top >= 1024 /\ Overflow(x) THEN r = Inf(x.s)
     ELSE IF top > -1021 THEN Nearest(x.s, x.m, BOne, x.e, r, 53)
     ELSE \* a multiple of 2^-1074
       LET d == x.e + 1074                            \* |x| = m 2^d units
           u == IF d >= 0 THEN Shl(x.m, d) ELSE x.m
           w == IF d >= 0 THEN BOne ELSE Shl(BOne, -d)
           g == BCmp(BTwice(Dist(u, BMul(r.m, w))), w)
       IN /\ r.k = "num" /\ r.s = x.s
          /\ r.m = BZero \/ r.e = -1074
          /\ g < 0 \/ (g = 0 /\ Even(r.m))

\* ------------------------------------------------------------ decimal text
\* r is the number nearest to (-1)^s digits 10^(-places)
FromDecimal(s, digits, places, r, P) ==
  IF digits = BZero THEN r = Zero(s)
  ELSE IF places >= 0 THEN Nearest(s, digits, BPow(<<10>>, places), 0, r, P)
  ELSE Nearest(s, BMul(digits, BPow(<<10>>, -places)), BOne, 0, r, P)

\* digits 10^(-places) is the decimal with so many places nearest to x (ties to an even last digit)
ToDecimal(x, s, digits, places) ==
  /\ x.k = "num" /\ x.s = s
  /\ IF x.m = BZero THEN digits = BZero
     ELSE LET t == BPow(<<10>>, IF places >= 0 THEN places ELSE -places)
              u == IF places >= 0 THEN BMul(x.m, t) ELSE x.m
              v == IF places >= 0 THEN BOne ELSE t
              L == IF x.e >= 0 THEN Shl(u, x.e) ELSE u
              D == IF x.e >= 0 THEN v ELSE Shl(v, -x.e)
              g == BCmp(BTwice(Dist(L, BMul(digits, D))), D)
          IN g < 0 \/ (g = 0 /\ Even(digits))
=============================================================================
