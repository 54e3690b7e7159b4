------------------------------- MODULE Sets ---------------------------------
(* The two set types of tnco as abstract data types.                         *)
(*                                                                           *)
(* Ordered frozen sets: sequences of elements <<v, r>> where v is the value  *)
(* (elements with equal v are equal) and r tells equal elements apart (1 and *)
(* 1.0 are equal, yet the set keeps the first one it was given).             *)
(*                                                                           *)
(* Bitsets: [n, s] with s a set of positions below n.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* ------------------------------------------------------------ ordered sets
OHas(q, v) == \E j \in DOMAIN q : q[j][1] = v
OMem(q) == {q[j][1] : j \in DOMAIN q}
OMake(q) == FoldLeft(LAMBDA acc, x : IF OHas(acc, x[1]) THEN acc ELSE Append(acc, x), <<>>, q)

OUnion(a, b) == OMake(a \o b)
OInter(a, b) == SelectSeq(a, LAMBDA x : OHas(b, x[1]))
ODiff(a, b) == SelectSeq(a, LAMBDA x : ~OHas(b, x[1]))
OSym(a, b) == OMake(SelectSeq(a \o b, LAMBDA x : OHas(a, x[1]) # OHas(b, x[1])))

OOp(op, a, b) ==
  CASE op = "union" -> OUnion(a, b)
    [] op = "intersection" -> OInter(a, b)
    [] op = "difference" -> ODiff(a, b)
    [] op = "symmetric_difference" -> OSym(a, b)

\* ------------------------------------------------------------------ bitsets
Bits(n, s) == [n |-> n, s |-> s]
Universe(n) == 0..(n - 1)
Ascending(s) == SetToSortSeq(s, LAMBDA x, y : x < y)
\* Positions make a bitset when they are distinct and below n
FromPositions(n, q) == \A j \in DOMAIN q : q[j] >= 0 /\ q[j] < n /\ \A l \in DOMAIN q : q[j] = q[l] => j = l
\* One digit per position, from position 0
ToBits(b) == [j \in 1..b.n |-> IF (j - 1) \in b.s THEN 1 ELSE 0]
OfBits(q) == Bits(Len(q), {j - 1 : j \in {l \in DOMAIN q : q[l] = 1}})

Combines(a, b) == a.n = b.n
BAnd(a, b) == Bits(a.n, a.s \cap b.s)
BOr(a, b) == Bits(a.n, a.s \cup b.s)
BXor(a, b) == Bits(a.n, (a.s \ b.s) \cup (b.s \ a.s))
BMinus(a, b) == Bits(a.n, a.s \ b.s)
BNot(a) == Bits(a.n, Universe(a.n) \ a.s)

BOp(op, a, b) ==
  CASE op = "and" -> BAnd(a, b)
    [] op = "or" -> BOr(a, b)
    [] op = "xor" -> BXor(a, b)
    [] op = "sub" -> BMinus(a, b)

\* -------------------------------------------------- predicates, on plain sets
Pred(op, x, y) ==
  CASE op = "isdisjoint" -> x \cap y = {}
    [] op \in {"issubset", "le"} -> x \subseteq y
    [] op \in {"issuperset", "ge"} -> y \subseteq x
    [] op = "lt" -> x \subseteq y /\ x # y
    [] op = "gt" -> y \subseteq x /\ x # y
    [] op = "eq" -> x = y
    [] op = "ne" -> x # y
=============================================================================
