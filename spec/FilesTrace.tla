----------------------------- MODULE FilesTrace -----------------------------
(* Recorded histories of dumps into a directory, and of reading files (C21) *)
(* c.names: the file names; every event carries what is in all of them.     *)
EXTENDS Files, TraceBase

VARIABLES i, k, st
vars == <<i, k, st>>

Seen(f) == [codec |-> f.codec, fmt |-> f.fmt, p |-> f.p]
Call(c, e) == [name |-> IF e.name = 0 THEN "" ELSE c.names[e.name], valid |-> e.name = 0 \/ c.valid[e.name],
               parts |-> IF e.name = 0 THEN <<>> ELSE c.parts[e.name], p |-> e.p, fmt |-> e.fmt, comp |-> e.comp, ow |-> e.ow,
               check |-> e.check]
Start(c) == [x \in S(c.names) |-> Absent]

StoreClauses(c, e, want) ==
  UNION {LET f == e.files[j]  w == want[c.names[j]]
         IN Clause(Seen(f) = w, "file")
            \cup (IF w = Absent THEN {} ELSE Clause(f.loaded = <<Kind(w), w.p>>, "load_file"))
         : j \in DOMAIN c.names}

EventClauses(c, e) ==
  LET call == Call(c, e)
      why == Reasons(st, call)
  IN (IF e.error # "" THEN {"error"}
      ELSE IF why # {} THEN (IF e.refused = "" THEN {"accepted"} ELSE Clause(e.refused \in why, "exception"))
      ELSE IF e.refused # "" THEN {"refused"}
      ELSE IF e.check THEN {}
      ELSE IF call.name = "" THEN Clause(e.ret = <<Fmt(call), e.p>>, "returned") ELSE Clause(e.ret = <<"none", 0>>, "returned"))
     \cup StoreClauses(c, e, After(st, call))

\* Reading: c: [layers, kind, same |-> BOOLEAN, got]
LoadClauses(c) == IF c.error # "" THEN {"error"}
                  ELSE IF c.kind0 \in {"missing", "invalid"}
                  THEN Clause(c.refused = (IF c.kind0 = "missing" THEN "FileNotFoundError" ELSE "ValueError"), "exception")
                  ELSE Clause(c.got = c.kind0, "kind") \cup Clause(c.same, "content")
\* Text forms: what is in the text is what was dumped
TextClauses(c) == IF c.error # "" THEN {"error"} ELSE UNION {Clause(c.equal[f], f) : f \in DOMAIN c.equal}

Init == i = 0 /\ k = 0 /\ st = <<>>
NewCase == /\ IF i = 0 THEN TRUE ELSE k = Len(Cases[i].ev)
           /\ i < Len(Cases)
           /\ i' = i + 1 /\ k' = 0
           /\ LET c == Cases[i + 1]
              IN CASE c.kind = "load" -> Report(i + 1, 0, LoadClauses(c)) /\ st' = <<>>
                   [] c.kind = "text" -> Report(i + 1, 0, TextClauses(c)) /\ st' = <<>>
                   [] c.kind = "history" -> st' = Start(c)
Event == /\ i > 0
         /\ k < Len(Cases[i].ev)
         /\ i' = i /\ k' = k + 1
         /\ LET e == Cases[i].ev[k + 1]
            IN /\ Report(i, k + 1, EventClauses(Cases[i], e))
               /\ st' = After(st, Call(Cases[i], e))
Next == NewCase \/ Event
Spec == Init /\ [][Next]_vars
=============================================================================
