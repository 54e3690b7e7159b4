------------------------------ MODULE MCPaths -------------------------------
(* Every path over n tensors is a tree: each complete path contracts every  *)
(* tensor once, and the number of sets of contractions is the number of     *)
(* trees, (2n-3)!!.                                                         *)
EXTENDS Paths, TLC
CONSTANT n
VARIABLE s
Init == s = Begin(n)
Next == \E a, b \in DOMAIN s.list : a < b /\ s' = [PStep(s, <<a, b>>) EXCEPT !.list = TLCEval(@)]
Spec == Init /\ [][Next]_s
Partition == /\ UNION {s.list[j] : j \in DOMAIN s.list} = 1..n
             /\ \A i, j \in DOMAIN s.list : i # j => s.list[i] \cap s.list[j] = {}
             /\ Len(s.list) = n - Cardinality(s.done)
             /\ \A j \in DOMAIN s.list : Cardinality(s.list[j]) > 1 =>
                  \E pr \in s.done : UNION pr = s.list[j]
Symmetric == \A a, b \in DOMAIN s.list : a # b => PStep(s, <<a, b>>).done = PStep(s, <<b, a>>).done
\* Groups are the components of the contractions: inside a group nothing depends on the others
SplitLaw == \A j \in DOMAIN s.list : LET K == s.list[j]
                                      d == {pr \in s.done : UNION pr \subseteq K}
                                  IN Cardinality(d) = Cardinality(K) - 1 /\ (Cardinality(K) > 1 => UNION {UNION pr : pr \in d} = K)
\* Paths which perform the same contractions are the same contraction
DoneView == s.done
=============================================================================
