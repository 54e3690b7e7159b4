----------------------------- MODULE MCPathOps ------------------------------
(* Random paths and fusions of all networks of n tensors over m indices.    *)
EXTENDS PathOps, TLC
CONSTANTS n, m, Kind, Dim, W
VARIABLES net, excl, s
Nets == {[ts |-> f, dims |-> [x \in 1..m |-> Dim], out |-> o] : f \in [1..n -> SUBSET (1..m)], o \in SUBSET (1..m)}
\* Networks up to the order of the tensors (sorted by a code of the index set)
Code(X) == FoldLeft(LAMBDA a, x : a + 2 ^ x, 0, SetToSeq(X))
Init == /\ \E q \in Nets : /\ \A v \in 1..(n - 1) : Code(q.ts[v]) <= Code(q.ts[v + 1])
                           /\ q.out \subseteq AllInds(q)
                           /\ Kind = "random" => q.out = {}
                           /\ net = Closed(q)
        /\ IF Kind = "random" THEN excl = {} ELSE excl \in {{}} \cup {{x} : x \in AllInds(net)}
        /\ s = IF Kind = "random" THEN RInit(net) ELSE FInit(net, excl)
Next == /\ UNCHANGED <<net, excl>>
        /\ IF Kind = "random"
           THEN \E pr \in RPairs(net, s) : s' = [PStep(s, pr) EXCEPT !.list = TLCEval(@)]
           ELSE \E u \in FSteps(net, W, excl, s) : s' = [u EXCEPT !.list = TLCEval(@)]
Spec == Init /\ [][Next]_<<net, excl, s>>
Stuck == IF Kind = "random" THEN RPairs(net, s) = {} ELSE s.avail = {}
\* A random path only stops when every component is one tensor
RandomEnd == Kind = "random" /\ Stuck => S0(s.list) = Components(net)
RandomShare == Kind = "random" => \A pr \in s.done : \E K \in Components(net) : UNION pr \subseteq K
\* A fusion never exceeds the width, never touches excluded indices and only gives up stuck indices
FuseWidth == Kind = "fuse" => \A pr \in s.done : Prod(Open(net, UNION pr), net.dims) <= W
FuseExcl == Kind = "fuse" => \A j \in DOMAIN s.list : Cardinality(s.list[j]) > 1 => Open(net, s.list[j]) \cap excl = {}
FuseEnd == Kind = "fuse" /\ Stuck => {x \in AllInds(net) \ excl : Cardinality(Holders(net, s.list, x)) > 1} = s.gone \cap {x \in AllInds(net) : Cardinality(Holders(net, s.list, x)) > 1}
\* Without a limit, everything is fused
FuseAll == Kind = "fuse" /\ Stuck /\ excl = {} /\ Prod(AllInds(net), net.dims) <= W => S0(s.list) = Components(net)
=============================================================================
