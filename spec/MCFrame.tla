------------------------------ MODULE MCFrame ------------------------------
(* Programs over a heap.  A value is a set of cells; the program makes      *)
(* containers, the library makes values of them, by copying the cells, or   *)
(* (if Sharing) by keeping them.  The clauses blame a program exactly if    *)
(* something was seen to change which is neither the receiver nor excused;  *)
(* without sharing they never do, with sharing they can.                    *)
EXTENDS Frame, TLC
CONSTANTS Slots, Cells, Sharing
VARIABLES kinds, cell, heap, last, seen
vars == <<kinds, cell, heap, last, seen>>

Vals(c, h) == [j \in DOMAIN c |-> h[c[j]]]
Init == kinds = <<>> /\ cell = <<>> /\ heap = [x \in 1..Cells |-> 0] /\ last = <<"call", 0>> /\ seen = <<>>
Note(op, r) == last' = <<op, r>> /\ seen' = Vals(cell, heap)
Free == {x \in 1..Cells : \A j \in DOMAIN cell : cell[j] # x}
Make == /\ Len(kinds) < Slots /\ Free # {}
        /\ LET x == CHOOSE y \in Free : TRUE
           IN \E v \in {0, 1} : cell' = Append(cell, x) /\ heap' = [heap EXCEPT ![x] = v]
        /\ \E t \in Own : kinds' = Append(kinds, t)
        /\ Note("call", 0)
Call == \E j \in DOMAIN kinds, t \in {"raw", "tensor", "optimizer", "model"} :
        /\ Len(kinds) < Slots
        /\ kinds' = Append(kinds, t)
        /\ IF (t \in Raw /\ kinds[j] \in Own \cup Raw) \/ (t = "tensor" /\ kinds[j] = "array") \/ Sharing
           THEN cell' = Append(cell, cell[j]) /\ heap' = heap
           ELSE /\ Free # {}
                /\ LET x == CHOOSE y \in Free : TRUE IN cell' = Append(cell, x) /\ heap' = [heap EXCEPT ![x] = heap[cell[j]]]
        /\ Note("call", 0)
\* a step of a stateful value, and the program writing into a container of its own
Write(op) == \E j \in DOMAIN kinds :
        /\ (op = "step" /\ kinds[j] \in Stateful) \/ (op = "own" /\ kinds[j] \in Own)
        /\ heap' = [heap EXCEPT ![cell[j]] = 1 - @]
        /\ kinds' = kinds /\ cell' = cell
        /\ Note(op, j)
Next == Make \/ Call \/ Write("step") \/ Write("own")
Spec == Init /\ [][Next]_vars

Now == Vals(cell, heap)
Blamed == FrameClauses(kinds, last[1], last[2], seen, Now) # {}
\* a cell of a container is kept by something which must not see it
Shared == \E j \in DOMAIN seen, r \in {last[2]} : r # 0 /\ j # r /\ cell[j] = cell[r] /\ j \notin May(kinds, last[1], r)
Right == Blamed <=> (last[1] # "call" /\ Shared)
Sound == ~Sharing => ~Blamed
=============================================================================
