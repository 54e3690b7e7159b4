----------------------------- MODULE CostModel ------------------------------
(* Cost models: what a contraction costs, how wide a tensor is.  Widths are  *)
(* base-2 logarithms; they are stated by the sizes they stand for:           *)
(* width = log2(size), change of width = log2(size after / size before).     *)
EXTENDS TensorNet

ContractionSize(m, A, B, sl) == BSize(m, A \cup B \cup sl)
TensorSize(m, X) == BSize(m, X)
Toggle(X, x) == IF x \in X THEN X \ {x} ELSE X \cup {x}

\* A model is accepted if and only if
ValidModel(p) ==
  /\ p.ctype \in {"float32", "float64", "float128", "float1024"}
  /\ p.finite => p.width = "ok" /\ p.wtype \in {"float32", "float64", "float128"}
  /\ p.nprojs \in {"none", "positive"}
  /\ p.sparse = "none" => p.nprojs = "none"
  /\ p.sparse = "some" => p.nprojs = "positive"
=============================================================================
