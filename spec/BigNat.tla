------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian sequences of limbs in base    *)
(* 10^4 without leading zeros (TLC integers are 32-bit).                    *)
EXTENDS Integers, Sequences, SequencesExt, Folds

LOCAL Base == 10000

BZero == <<>>

RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BNat(n \div Base)
BOne == <<1>>

LOCAL Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* a * m + c for a small natural m (m < 2 * 10^5)
BMulSmall(a, m) ==
  LET r == FoldLeft(LAMBDA acc, x :
                      LET v == x * m + acc[2]
                      IN <<Append(acc[1], v % Base), v \div Base>>,
                    <<<<>>, 0>>, a)
  IN BTrim(r[1] \o BNat(r[2]))

BAdd(a, b) ==
  LET n == Max2(Len(a), Len(b))
      r == FoldLeft(LAMBDA acc, i :
                      LET v == Limb(a, i) + Limb(b, i) + acc[2]
                      IN <<Append(acc[1], v % Base), v \div Base>>,
                    <<<<>>, 0>>, [i \in 1..n |-> i])
  IN BTrim(r[1] \o BNat(r[2]))

\* a - b, for a >= b
BSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET v == Limb(a, i) - Limb(b, i) - acc[2]
                      IN IF v < 0 THEN <<Append(acc[1], v + Base), 1>>
                                  ELSE <<Append(acc[1], v), 0>>,
                    <<<<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN BTrim(r[1])

RECURSIVE BCmpAt(_, _, _)
LOCAL BCmpAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpAt(a, b, i - 1)

\* -1, 0, 1
BCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE BCmpAt(a, b, Len(a))
BLeq(a, b) == BCmp(a, b) <= 0
BLess(a, b) == BCmp(a, b) < 0

\* full product
BMul(a, b) ==
  FoldLeft(LAMBDA acc, i : BAdd(acc, [j \in 1..(i - 1) |-> 0] \o BMulSmall(a, b[i])),
           <<>>, [i \in 1..Len(b) |-> i])

RECURSIVE BPow(_, _)
BPow(a, n) ==
  IF n = 0 THEN BOne
  ELSE LET h == BPow(a, n \div 2) IN IF n % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), a)

BSum(s) == FoldLeft(BAdd, BZero, s)
=============================================================================
