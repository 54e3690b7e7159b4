------------------------------- MODULE Zomega -------------------------------
(* Exact arithmetic in Z[w], w = exp(i pi/4): <<a, b, c, d>> stands for     *)
(* a + b w + c w^2 + d w^3 (w^4 = -1).  sqrt(2) = w - w^3.                  *)
(* Amplitudes of Clifford+T circuits are such numbers over powers of sqrt2. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

ZZero == <<0, 0, 0, 0>>
ZOne == <<1, 0, 0, 0>>
ZAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
ZMul(x, y) ==
  IF x = ZZero \/ y = ZZero THEN ZZero
  ELSE IF x = ZOne THEN y
  ELSE <<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
         x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
         x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
         x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]>>
ZConj(x) == <<x[1], -x[4], -x[3], -x[2]>>
ZSum(q) == FoldLeft(ZAdd, ZZero, q)
\* Fixed point: real and imaginary part in units of 1/8192 (1/sqrt(2) = 5792.62 units)
ZF == 8192
LOCAL Root(v) == v * 5792 + (v * 62) \div 100
ZRe(x) == x[1] * ZF + Root(x[2] - x[4])
ZIm(x) == x[3] * ZF + Root(x[2] + x[4])
=============================================================================
