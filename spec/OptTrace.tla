------------------------------ MODULE OptTrace ------------------------------
(* Validation of recorded runs of the optimizers against Opt.               *)
(*                                                                          *)
(* A case is [net, cf, init, ev]: the network, the configuration, the state *)
(* observed after construction and a sequence of events                     *)
(*   [op |-> "update", pr, reslice, o |-> observed state]                   *)
(*   [op |-> "many", pr, reslice, o]    many updates without looking        *)
(*   [op |-> "look" | "pickle", o]      nothing may change                  *)
(*   [op |-> "error", what]                                                 *)
(*   [op |-> "shared", accepted]        whether the starting contraction is *)
(*                       accepted if contracted tensors must share an index *)
(* An observed state is the tree, its index sets, the slices, an interval   *)
(* of integers which contains the reported cost, and the same for the best. *)
EXTENDS Opt, TraceBase

VARIABLES i, k, st
vars == <<i, k, st>>

SS(q) == [v \in DOMAIN q |-> S(q[v])]
ToNet(c) == Closed([ts |-> SS(c.net.ts), dims |-> c.net.dims, out |-> S(c.net.out)])
ToCf(c) == [m |-> [dims |-> c.net.dims, sparse |-> S(c.cf.sparse), nproj |-> c.cf.nproj],
            share |-> c.cf.share, finite |-> c.cf.finite, maxsize |-> c.cf.maxsize,
            maxnew |-> c.cf.maxnew, skip |-> S(c.cf.skip), big |-> c.cf.big]
Tree(q) == [par |-> q.par, c1 |-> q.c1, c2 |-> q.c2]

In(v, q) == q.lo <= v /\ v <= q.hi
BIn(v, q) == BLeq(q.blo, v) /\ BLeq(v, q.bhi)

TotalOf(cf, t, xs, sl) == IF cf.big THEN BCost(cf.m, t, xs, sl) ELSE Cost(cf.m, t, xs, sl)
CostOK(cf, v, q) == IF cf.big THEN BIn(v, q) ELSE In(v, q)
Less(cf, a, b) == IF cf.big THEN BLess(a, b) ELSE a < b

\* Clauses about one observed state taken alone; the prefix names what is observed
Shape(net, cf, q, pre) ==
  LET t == Tree(q)
      xs == SS(q.inds)
      cl == CTreeClauses(net, t, xs)
  IN IF cl # {} THEN {"C01:" \o pre \o x : x \in cl}
     ELSE (IF CostOK(cf, TotalOf(cf, t, xs, S(q.sl)), q.cost) THEN {} ELSE {"C02:" \o pre \o "cost"})
          \cup (IF cf.share /\ ~AllShare(t, xs) THEN {"C08:" \o pre \o "share"} ELSE {})
          \cup (IF AllFit(cf, t, xs, S(q.sl)) THEN {} ELSE {"C05:" \o pre \o "width"})
          \cup (IF S(q.sl) \cap cf.skip = {} THEN {} ELSE {"C05:" \o pre \o "skip"})
          \cup (IF S(q.sl) \subseteq AllInds(net) THEN {} ELSE {"C05:" \o pre \o "slices"})

\* The state tracked by the specification
Track(cf, o) ==
  LET t == Tree(o)
      xs == SS(o.inds)
      sl == S(o.sl)
  IN [t |-> t, xs |-> xs, sl |-> sl, tot |-> TotalOf(cf, t, xs, sl)]

Sound(bad) == \A x \in bad : x \notin {"C01:" \o y : y \in {"tree", "leaves", "leaf-inds", "open-inds", "inds-length"}}

\* s: tracked state, s.b: best so far [t, sl, tot]
\* Is the observation o what one update may lead to?
Step(cf, pr, s, o, reslice) ==
  LET n == [t |-> Tree(o), xs |-> SS(o.inds), sl |-> S(o.sl)]
      tg == [on |-> TRUE, t |-> n.t, xs |-> n.xs, sl |-> n.sl, anysl |-> reslice]
      s0 == [t |-> s.t, xs |-> s.xs, sl |-> s.sl, tot |-> IF cf.big THEN 0 ELSE s.tot]
      ends == {q \in Sweeps(cf, pr, s0, tg) : SameTree(q.t, n.t) /\ q.xs = n.xs}
  IN \E q \in ends :
       \/ q.sl = n.sl
       \/ /\ reslice /\ q.sl # {}
          /\ AllFit(cf, n.t, n.xs, n.sl) /\ n.sl \cap cf.skip = {}
          /\ Less(cf, TotalOf(cf, n.t, n.xs, n.sl), TotalOf(cf, n.t, n.xs, q.sl))

\* The same ignoring slices altogether
TreeStep(cf, s, o) ==
  LET n == [t |-> Tree(o), xs |-> SS(o.inds)]
      tg == [on |-> TRUE, t |-> n.t, xs |-> n.xs, sl |-> {}, anysl |-> TRUE]
      free == [cf EXCEPT !.finite = FALSE, !.big = TRUE]
      s0 == [t |-> s.t, xs |-> s.xs, sl |-> {}, tot |-> 0]
  IN \E q \in Sweeps(free, "any", s0, tg) : SameTree(q.t, n.t) /\ q.xs = n.xs

UpdateClauses(net, cf, s, e) ==
  LET o == e.o
      alone == Shape(net, cf, o, "") \cup Shape(net, cf, o.best, "best-")
      ok == Sound(alone)
      tr == IF ok THEN TreeStep(cf, s, o) ELSE FALSE
      sl == IF tr THEN Step(cf, "any", s, o, e.reslice) ELSE FALSE
      ac == IF sl THEN Step(cf, e.pr, s, o, e.reslice) ELSE FALSE
  IN alone
     \cup (IF ok /\ ~tr THEN {"C01:sweep"} ELSE {})
     \cup (IF tr /\ ~sl THEN {"C06:slices"} ELSE {})
     \cup (IF sl /\ ~cf.big /\ ~ac THEN {"C04:accept"} ELSE {})
     \cup (IF ~ok THEN {}
           ELSE LET q == Track(cf, o)
                    nb == IF Less(cf, q.tot, s.b.tot) THEN [t |-> q.t, sl |-> q.sl, tot |-> q.tot] ELSE s.b
                IN (IF CostOK(cf, nb.tot, o.best.cost) THEN {} ELSE {"C03:best-cost"})
                   \cup (IF SameTree(Tree(o.best), nb.t) THEN {} ELSE {"C03:best-tree"})
                   \cup (IF S(o.best.sl) = nb.sl THEN {} ELSE {"C03:best-slices"}))
     \cup (IF o.valid THEN {} ELSE {"C06:is_valid"})

\* What any number of updates leaves true
ManyClauses(net, cf, s, e) ==
  LET o == e.o
      alone == Shape(net, cf, o, "") \cup Shape(net, cf, o.best, "best-")
      q == Track(cf, o)
      b == Track(cf, o.best)
  IN alone
     \cup (IF o.valid THEN {} ELSE {"C06:is_valid"})
     \cup (IF ~Sound(alone) THEN {}
           ELSE (IF Less(cf, q.tot, b.tot) \/ Less(cf, s.b.tot, b.tot) THEN {"C03:best-cost"} ELSE {})
                \cup (IF b.tot = s.b.tot /\ ~(SameTree(b.t, s.b.t) /\ b.sl = s.b.sl) THEN {"C03:best-tree"} ELSE {})
                \cup (IF e.reslice \/ (s.sl \subseteq q.sl /\ (cf.maxnew = 0 => s.sl = q.sl)) THEN {} ELSE {"C06:slices"})
                \cup (IF e.pr = "greedy" /\ Less(cf, s.tot, q.tot) THEN {"C04:accept"} ELSE {}))

\* Nothing changes (looking at an optimizer, or replacing it by its pickled copy)
SameClauses(s, e) ==
  LET o == e.o
  IN (IF SameTree(Tree(o), s.t) /\ SS(o.inds) = s.xs THEN {} ELSE {"C07:tree"})
     \cup (IF S(o.sl) = s.sl THEN {} ELSE {"C07:slices"})
     \cup (IF SameTree(Tree(o.best), s.b.t) /\ S(o.best.sl) = s.b.sl THEN {} ELSE {"C07:best"})

EventClauses(net, cf, s, e) ==
  CASE e.op = "update" -> UpdateClauses(net, cf, s, e)
    [] e.op = "many" -> ManyClauses(net, cf, s, e)
    [] e.op = "error" -> {"C06:error"}
    [] e.op = "shared" -> IF e.accepted = AllShare(s.t, s.xs) THEN {} ELSE {"C08:construct"}
    [] OTHER -> SameClauses(s, e)

InitState(cf, c) == LET q == Track(cf, c.init)
                    IN q @@ [b |-> [t |-> q.t, sl |-> q.sl, tot |-> q.tot]]
InitClauses(net, cf, c) ==
  LET o == c.init
      alone == Shape(net, cf, o, "") \cup Shape(net, cf, o.best, "best-")
  IN alone \cup (IF SameTree(Tree(o), Tree(o.best)) /\ S(o.sl) = S(o.best.sl) THEN {} ELSE {"C03:best-init"})

NextState(cf, s, e) ==
  IF e.op = "many" THEN LET b == Track(cf, e.o.best) IN Track(cf, e.o) @@ [b |-> [t |-> b.t, sl |-> b.sl, tot |-> b.tot]]
  ELSE IF e.op # "update" THEN s
  ELSE LET q == Track(cf, e.o)
           nb == IF Less(cf, q.tot, s.b.tot) THEN [t |-> q.t, sl |-> q.sl, tot |-> q.tot] ELSE s.b
       IN q @@ [b |-> nb]

Start(c) ==
  LET bad == InitClauses(ToNet(Cases[c]), ToCf(Cases[c]), Cases[c])
  IN /\ Report(c, 0, bad)
     /\ st' = IF Sound(bad) THEN InitState(ToCf(Cases[c]), Cases[c]) ELSE <<>>
     /\ k' = IF Sound(bad) THEN 0 ELSE Len(Cases[c].ev)

Init == i = 0 /\ k = 0 /\ st = <<>>

NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1
           /\ Start(i + 1)

Event == /\ i > 0
         /\ k < Len(Cases[i].ev)
         /\ i' = i
         /\ LET c == Cases[i]
                e == c.ev[k + 1]
                net == ToNet(c)
                cf == ToCf(c)
                bad == EventClauses(net, cf, st, e)
            IN /\ Report(i, k + 1, bad)
               /\ IF Sound(bad) /\ "C06:error" \notin bad
                  THEN k' = k + 1 /\ st' = NextState(cf, st, e)
                  ELSE k' = Len(c.ev) /\ st' = <<>>

Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
