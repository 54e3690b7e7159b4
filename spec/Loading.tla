------------------------------ MODULE Loading -------------------------------
(* Descriptions of tensor networks as lists of indices: one row per index,  *)
(* its dimension (in halves, so that 3 is 1.5) followed by the names of the *)
(* tensors which have it.  Names are numbers from 1; Out and Sparse mark    *)
(* the index as open and as sparse.  A text also has blank lines and        *)
(* comments, and possibly lines which are neither.                          *)
EXTENDS Network, SequencesExt

Out == 0
Sparse == -1

\* The rows of a text: lines [kind |-> "row" | "blank" | "comment" | "junk", row]
RowsOf(lines) == LET q == SelectSeq(lines, LAMBDA l : l.kind = "row") IN [j \in DOMAIN q |-> q[j].row]
Readable(lines) == \A j \in DOMAIN lines : lines[j].kind # "junk"

NamesIn(row) == SelectSeq(Tail(row), LAMBDA x : x > 0)
\* Tensors in the order in which they are first named
Order(rows) == FoldLeft(LAMBDA a, x : IF x \in El(a) THEN a ELSE Append(a, x), <<>>,
                        FoldLeft(LAMBDA a, r : a \o NamesIn(r), <<>>, rows))
Marked(rows, m) == {x \in DOMAIN rows : m \in El(Tail(rows[x]))}
Has(rows, name) == SelectSeq([x \in DOMAIN rows |-> x], LAMBDA x : name \in El(NamesIn(rows[x])))
Described(rows) ==
  LET names == Order(rows)
  IN [names |-> names,
      ts |-> [v \in DOMAIN names |-> [inds |-> Has(rows, names[v]),
                                      dims |-> [j \in DOMAIN Has(rows, names[v]) |-> rows[Has(rows, names[v])[j]][1] \div 2]]],
      hasout |-> TRUE, out |-> SetToSeq(Marked(rows, Out)), hassparse |-> TRUE, sparse |-> SetToSeq(Marked(rows, Sparse))]
\* A description is fit if every row has a dimension, and names at least one tensor or marker,
\* and only indices of tensors are marked
Fit(rows) == /\ \A x \in DOMAIN rows : Len(rows[x]) > 1 /\ (NamesIn(rows[x]) # <<>> => Whole(rows[x][1])) /\ rows[x][1] % 2 = 0
             /\ NetOk(Described(rows))
=============================================================================
