------------------------------- MODULE Accept -------------------------------
(* Acceptance of moves: values of the probability models, and the law of    *)
(* one update of an optimizer (random original tensor, random legal         *)
(* exchange at every node on the way to the root, acceptance by the model). *)
(* Probabilities are integers over SC.                                      *)
EXTENDS Opt, TraceBase

SC == 30000

-----------------------------------------------------------------------------
(* A value of a model: [kind, q, delta, old, lo, hi], with q twice the      *)
(* inverse temperature and lo <= 10^6 value <= hi.                          *)
ValueOK(c) ==
  LET one == c.lo <= 1000000 /\ 1000000 <= c.hi
      zero == c.lo <= 0
      x == BPow(BNat(c.old), c.q)
      y == BPow(BNat(c.old + c.delta), c.q)
      lo == BNat(IF c.lo < 0 THEN 0 ELSE c.lo)
      hi == BNat(c.hi)
      M == BMul(BNat(1000000), BNat(1000000))
  IN CASE c.kind = "base" -> one
       [] c.delta <= 0 -> one
       [] c.kind = "greedy" -> zero /\ c.hi >= 0 /\ c.hi <= 1
       [] OTHER -> /\ BLeq(BMul(BMul(lo, lo), y), BMul(M, x))
                   /\ BLeq(BMul(M, x), BMul(BMul(hi, hi), y))

-----------------------------------------------------------------------------
\* (old / (old + delta))^beta over SC, beta a small integer
RECURSIVE Ratio(_, _, _)
Ratio(old, new, beta) == IF beta = 0 THEN SC ELSE (Ratio(old, new, beta - 1) * old) \div new
AcceptP(kind, beta, old, new) ==
  IF kind = "base" \/ new <= old THEN SC
  ELSE IF kind = "greedy" THEN 0
  ELSE Ratio(old, new, beta)

\* How indices X are made to fit: as they are, or by adding random indices one at a
\* time.  A sequence of [ok, sl, w]: slices and weight
RECURSIVE Extend(_, _, _, _, _)
Extend(cf, X, sl, left, w) ==
  IF Fits(cf, X, sl) THEN << [ok |-> TRUE, sl |-> sl, w |-> w] >>
  ELSE LET cand == SetToSeq(X \ (sl \cup cf.skip))
       IN IF left = 0 \/ cand = << >> THEN << [ok |-> FALSE, sl |-> sl, w |-> w] >>
          ELSE FlattenSeq([i \in DOMAIN cand |-> Extend(cf, X, sl \cup {cand[i]}, left - 1, w \div Len(cand))])

\* Outcomes of one visit of b, as a sequence of <<state, weight>>
VisitD(cf, kind, beta, s, w, b) ==
  LET a == s.t.par[b]
      c == Sibling(s.t, b)
      es == SetToSeq(Candidates(cf, s, b))
      n == Len(es)
      one(e) ==
        LET xt == Extend(cf, NewInds(s, a, b, c, Sibling(s.t, e), e), s.sl, cf.maxnew, w \div n)
            try(y) ==
              LET q == Moved(cf, s, b, e, y.sl)
                  p == IF y.ok THEN AcceptP(kind, beta, s.tot, q.tot) ELSE 0
                  \* possible, even if its weight is rounded to 0
                  may == y.ok /\ ~(kind = "greedy" /\ q.tot > s.tot)
              IN (IF may THEN << <<q, (y.w * p) \div SC>> >> ELSE << >>)
                 \o (IF p < SC THEN << <<s, (y.w * (SC - p)) \div SC>> >> ELSE << >>)
        IN FlattenSeq([j \in DOMAIN xt |-> try(xt[j])])
  IN FlattenSeq([i \in 1..n |-> one(es[i])])

RECURSIVE ClimbD(_, _, _, _, _)
ClimbD(cf, kind, beta, D, b) ==
  LET a == D[1][1].t.par[b]
  IN IF a = 0 THEN D
     ELSE ClimbD(cf, kind, beta, FlattenSeq([i \in DOMAIN D |-> VisitD(cf, kind, beta, D[i][1], D[i][2], b)]), a)

\* The law of one update
Law(cf, kind, beta, s) ==
  LET n == Cardinality(Leaves(s.t))
  IN FlattenSeq([v \in 1..n |-> ClimbD(cf, kind, beta, << <<s, SC \div n>> >>, s.t.par[v])])
LawOf(law, t, sl) == FoldLeft(LAMBDA x, y : x + (IF SameTree(y[1].t, t) /\ y[1].sl = sl THEN y[2] ELSE 0), 0, law)

\* A run: [net, cf, kind, beta, from |-> << [t, sl, n, to |-> << [t, sl, n] >>] >>]: how often every
\* tree (with its slices) followed a given tree.  |k - N w| <= 6 sqrt(N w (1 - w)) + slack
Far(N, k, w) ==
  LET mean == (N * w) \div SC
      var == (mean * (SC - w)) \div SC + 1
      d == IF k > mean THEN k - mean ELSE mean - k
      slack == 4 + (N * 40) \div SC
      x == IF d > slack THEN d - slack ELSE 0
  IN x > 40000 \/ x * x > 36 * var

SS(q) == [v \in DOMAIN q |-> S(q[v])]
ToNet(c) == Closed([ts |-> SS(c.net.ts), dims |-> c.net.dims, out |-> S(c.net.out)])
ToCf(c) == [m |-> [dims |-> c.net.dims, sparse |-> S(c.cf.sparse), nproj |-> c.cf.nproj],
            share |-> c.cf.share, finite |-> c.cf.finite, maxsize |-> c.cf.maxsize,
            maxnew |-> c.cf.maxnew, skip |-> S(c.cf.skip), big |-> FALSE]
StateOf(net, cf, t, sl) == LET xs == OpenInds(net, t)
                           IN [t |-> t, xs |-> xs, sl |-> sl, tot |-> Cost(cf.m, t, xs, sl)]
RunClauses(c) ==
  LET net == ToNet(c)
      cf == ToCf(c)
      per(f) ==
        LET law == Law(cf, c.kind, c.beta, StateOf(net, cf, f.t, S(f.sl)))
            missed(q) == \A x \in DOMAIN f.to : ~(SameTree(f.to[x].t, q.t) /\ S(f.to[x].sl) = q.sl)
            w(j) == LawOf(law, f.to[j].t, S(f.to[j].sl))
        IN (IF \A j \in DOMAIN f.to : \E y \in DOMAIN law : SameTree(law[y][1].t, f.to[j].t) /\ law[y][1].sl = S(f.to[j].sl) THEN {} ELSE {"C04:impossible"})
           \cup (IF \E j \in DOMAIN f.to : Far(f.n, f.to[j].n, w(j)) THEN {"C04:law"} ELSE {})
           \cup (IF \E j \in DOMAIN law : missed(law[j][1]) /\ Far(f.n, 0, LawOf(law, law[j][1].t, law[j][1].sl))
                 THEN {"C04:never"} ELSE {})
  IN UNION {per(c.from[j]) : j \in DOMAIN c.from}

Clauses(c) ==
  CASE c.what = "value" -> IF ValueOK(c) THEN {} ELSE {"C04:value"}
    [] c.what = "error" -> {"C04:error"}
    [] OTHER -> RunClauses(c)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
