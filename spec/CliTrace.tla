------------------------------ MODULE CliTrace ------------------------------
(* Recorded command lines (C31): the words, the parameters given to the     *)
(* library, and what both did: [how |-> "text" | "file" | refusal, doc].    *)
EXTENDS Cli, TraceBase

Pairs(q) == {<<q[j][1], q[j][2]>> : j \in DOMAIN q}
\* Without a format the command line writes JSON
Given(p, name) == \E pr \in p.set : pr[1] = name
Clauses(c) ==
  IF c.error # "" THEN {"error"}
  ELSE LET p == Parse(c.words, c.order)
       IN Clause(p.set = Pairs(c.given) /\ p.command = c.command, "words")
          \cup Clause(c.cli.how = c.lib.how, "outcome")
          \cup Clause(c.cli.doc = c.lib.doc, "result")
          \cup Clause(c.cli.how \in {"text", "file"} => (c.cli.fmt = "json") = (c.format = "json" \/ ~Given(p, c.formatname)), "format")

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ Report(i + 1, 0, Clauses(Cases[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
