------------------------------ MODULE MCDecomp ------------------------------
(* Replacing diagonal tensors keeps the value (C16): all networks of two or *)
(* three tensors over a few indices of dimension 2 with entries 0/1, where  *)
(* one tensor is decomposed after the other, a constant tensor loses its    *)
(* indices, and indices come back where fewer than two tensors would hold   *)
(* them.  The two variants without this rule, or without merging, fail.     *)
EXTENDS Values, TLC
CONSTANTS Keep      \* TRUE: put indices back
VARIABLES ts, q, mp, todo
X == 1..3
Dims == [x \in X |-> 2]
Lists == {<<>>, <<1>>, <<1, 2>>, <<2, 3>>, <<1, 3>>}
Arr(l) == [1..(2 ^ Len(l)) -> {0, 1}]
VARIABLES ts0, q0
Init == /\ ts0 \in [1..2 -> Lists] /\ q0 = <<>> /\ ts = ts0 /\ q = <<>> /\ mp = [x \in X |-> x] /\ todo = <<>>
\* choose the entries of one tensor after the other
Fill == /\ Len(q0) < 2
        /\ \E a \in Arr(ts0[Len(q0) + 1]) : q0' = Append(q0, a) /\ q' = Append(q, a)
        /\ todo' = IF Len(q0) = 1 THEN <<1, 2>> ELSE <<>>
        /\ UNCHANGED <<ts, ts0, mp>>
IsDiag(l, a) == Len(l) = 2 /\ a[2] = 0 /\ a[3] = 0
Rename(m, a, b) == [x \in X |-> IF m[x] = a THEN b ELSE m[x]]
Decomp ==
  /\ Len(q0) = 2 /\ todo # <<>>
  /\ LET v == Head(todo) l == ts[v] a == q[v]
     IN IF IsDiag(l, a)
        THEN /\ mp' = LET r == mp[l[1]] s == mp[l[2]] IN Rename(mp, s, r)
             /\ ts' = [ts EXCEPT ![v] = IF a[1] = a[4] THEN <<>> ELSE <<l[1]>>]
             /\ q' = [q EXCEPT ![v] = IF a[1] = a[4] THEN <<a[1]>> ELSE <<a[1], a[4]>>]
        ELSE UNCHANGED <<ts, q, mp>>
  /\ todo' = Tail(todo) /\ UNCHANGED <<ts0, q0>>
\* at the end, all names are replaced, and lost indices come back
Done == Len(q0) = 2 /\ todo = <<>>
\* two indices of a tensor may have been merged by another tensor; then only its diagonal remains
Nts == [v \in 1..2 |-> [j \in DOMAIN ts[v] |-> mp[ts[v][j]]]]
Uses(x) == {v \in 1..2 : x \in Elems(Nts[v])}
Back(v) == IF Keep THEN {mp[x] : x \in {y \in Elems(ts0[v]) : mp[y] \notin Elems(Nts[v]) /\ Cardinality(Uses(mp[y])) < 2}} ELSE {}
Next == Fill \/ Decomp
Spec == Init /\ [][Next]_<<ts, q, mp, todo, ts0, q0>>
All == UNION {Elems(ts0[v]) : v \in 1..2}
Value == Done => \A f \in Assigns(All, Dims) :
  LET ok == \A x, y \in All : mp[x] = mp[y] => f[x] = f[y]
      new == FoldLeft(LAMBDA p, v : p * Entry(q[v], ts[v], Dims, f), 1, <<1, 2>>)
  IN Term(ts0, q0, Dims, f) = IF ok THEN new ELSE 0
Indices == Done => \A x \in All :
  LET was == Cardinality({v \in 1..2 : \E y \in Elems(ts0[v]) : mp[y] = mp[x]})
      is == Cardinality({v \in 1..2 : mp[x] \in Elems(Nts[v]) \cup Back(v)})
  IN is >= was \/ is >= 2
=============================================================================
