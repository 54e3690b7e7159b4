------------------------------ MODULE MCAnneal ------------------------------
(* All histories of one optimizer under small requests.                     *)
EXTENDS Anneal
Reqs == {[range |-> TRUE, b0 |-> a, b1 |-> b, n |-> n, list |-> <<>>, u |-> u] : a \in {0, 12}, b \in {6, 24}, n \in 1..4, u \in 0..3}
        \cup {[range |-> FALSE, b0 |-> 0, b1 |-> 0, n |-> n, list |-> l, u |-> u] : n \in 1..4, l \in {<<5>>, <<5, 1, 5>>}, u \in 0..2}
Costs == 1..3
VARIABLES req, s, hist
vars == <<req, s, hist>>
Init == req \in Reqs /\ \E c \in Costs : s = Fresh(req, c) /\ hist = <<[b |-> 0, r |-> FALSE, c |-> c]>>
Next == /\ s.k < Total(req)
        /\ \E b \in 0..24, r \in BOOLEAN, c \in Costs :
             /\ HotOK(req, s, b, 0) /\ SliceOK(req, s, r)
             /\ s' = Updated(req, s, b, 0, r, c)
             /\ hist' = Append(hist, [b |-> b, r |-> r, c |-> c])
             /\ UNCHANGED req
Spec == Init /\ [][Next]_vars
View == <<req, s, [j \in DOMAIN hist |-> <<hist[j].b, hist[j].r>>]>>
\* What a finished run looks like
End == Done(req, s) =>
  /\ \A j \in DOMAIN hist : s.best <= hist[j].c
  /\ \E j \in DOMAIN hist : s.best = hist[j].c
  /\ Len(hist) = Total(req) + 1
  /\ req.range => /\ hist[2].b = req.b0
                  \* equal steps (up to the rounding of fixed point), never beyond the end
                  /\ \A j \in 3..(Len(hist) - 1) : Dist(hist[j + 1].b - hist[j].b, hist[j].b - hist[j - 1].b) <= 1
                  /\ \A j \in 2..Len(hist) : Min2(req.b0, req.b1) <= hist[j].b /\ hist[j].b <= -Min2(-req.b0, -req.b1)
  /\ ~req.range => \A j \in 2..Len(hist) : hist[j].b = req.list[j - 1]
  \* every stretch of u updates has exactly one with an update of the slices
  /\ req.u > 0 => \A j \in 2..(Len(hist) - req.u + 1) : Cardinality({i \in j..(j + req.u - 1) : hist[i].r}) = 1
=============================================================================
