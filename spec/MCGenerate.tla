---------------------------- MODULE MCGenerate -----------------------------
(* Growing a component: a first index joins K tensors, every further one    *)
(* joins one more tensor to K - 1 joined ones, then the remaining indices   *)
(* and the output indices are placed at will.  All ways of doing so give a  *)
(* connected component of the requested shape.                              *)
EXTENDS Generate, TLC
CONSTANTS N, M, K, O
VARIABLES links, outs
vars == <<links, outs>>
Ks(A, j) == {X \in SUBSET A : Cardinality(X) = j}
Joined == UNION {links[j] : j \in DOMAIN links}
Init == links = <<>> /\ outs = <<>>
Inner == M - O
Next ==
  \/ /\ links = <<>>
     /\ \E X \in Ks(1..N, K) : links' = <<X>>
     /\ UNCHANGED outs
  \/ /\ links # <<>> /\ Joined # 1..N
     /\ \E v \in (1..N) \ Joined, X \in Ks(Joined, K - 1) : links' = Append(links, X \cup {v})
     /\ UNCHANGED outs
  \/ /\ Joined = 1..N /\ Len(links) < Inner
     /\ \E X \in Ks(1..N, K) : links' = Append(links, X)
     /\ UNCHANGED outs
  \/ /\ Joined = 1..N /\ Len(links) = Inner /\ Len(outs) < O
     /\ \E X \in Ks(1..N, IF Len(outs) < O - ManyOut(K, O) THEN 1 ELSE K - 1) : outs' = Append(outs, X)
     /\ UNCHANGED links
Spec == Init /\ [][Next]_vars
All == links \o outs
Ts == [v \in 1..N |-> SetToSortSeq({x \in DOMAIN All : v \in All[x]}, <)]
Out == {x \in DOMAIN All : x > Len(links)}
Done == Joined = 1..N /\ Len(links) = Inner /\ Len(outs) = O
Shaped == Done => OneShape(Ts, Out, N, M, K, O) /\ (K = 1 \/ Cardinality(Components(NetOf(Ts, Out))) = 1)
\* Enough indices: the growth never gets stuck before
Enough == Len(links) <= Inner
=============================================================================
