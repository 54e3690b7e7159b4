---------------------------- MODULE Subscripts ------------------------------
(* Einsum subscripts: every index is named by one symbol of its own.        *)
(* Texts are sequences of code points; indices are numbers.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Comma == 44
Arrow == <<45, 62>>
\* Characters which cannot name an index: surrogates are no characters at all, the
\* others have a meaning in subscripts
Valid(s) == /\ s > 0 /\ s < 1114112 /\ ~(s >= 55296 /\ s <= 57343)
            /\ s \notin {9, 10, 13, 32, 44, 45, 46, 62}
Distinct(q) == Cardinality(TLCEval({q[j] : j \in DOMAIN q})) = Len(q)
Flat(qq) == FlattenSeq(qq)
Write(ts, out, sym) ==
  LET name(q) == [j \in DOMAIN q |-> sym[q[j]]]
      list == FoldLeft(LAMBDA a, v : (IF v = 1 THEN <<>> ELSE a \o <<Comma>>) \o name(ts[v]), <<>>, [v \in DOMAIN ts |-> v])
  IN list \o Arrow \o name(out)
\* A text which names the indices of ts and out, whatever the symbols: commas and the
\* arrow where the lengths of ts put them, and elsewhere one symbol per index
Reads(text, ts, out) ==
  LET all == TLCEval(Flat(ts) \o out)
      commas == IF ts = <<>> THEN {} ELSE
        {v + FoldLeft(LAMBDA a, u : a + Len(ts[u]), 0, [u \in 1..v |-> u]) : v \in 1..(Len(ts) - 1)}
      n == Len(all) + Cardinality(commas) + 2
      arrow == {n - Len(out) - 1, n - Len(out)}
      marks == TLCEval(commas \cup arrow)
  IN /\ Len(text) = n
     /\ \A p \in commas : text[p] = Comma
     /\ text[n - Len(out) - 1] = Arrow[1]
     /\ text[n - Len(out)] = Arrow[2]
     /\ LET where == TLCEval(SetToSortSeq((1..n) \ marks, LAMBDA a, b : a < b))
            pairs == TLCEval({<<all[j], text[where[j]]>> : j \in DOMAIN all})
            symbols == TLCEval({p[2] : p \in pairs})
        IN /\ Cardinality(pairs) = Cardinality({p[1] : p \in pairs})
           /\ Cardinality(pairs) = Cardinality(symbols)
           /\ \A s \in symbols : Valid(s)
=============================================================================
