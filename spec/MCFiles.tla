------------------------------ MODULE MCFiles -------------------------------
(* All histories of Depth calls on two files.                               *)
EXTENDS Files, TLC
CONSTANT Depth
Names == {"a", "b"}
Parts(x) == IF x = "a" THEN <<"a", "gzip">> ELSE IF x = "b" THEN <<"b">> ELSE <<>>
Calls == [name : Names \cup {""}, valid : {TRUE}, p : {0, 1, 2}, check : BOOLEAN, fmt : {"", "raw", "json", "xml"}, comp : Compressions \cup {"zip"}, ow : BOOLEAN]
Full(c) == c @@ [parts |-> Parts(c.name)]
VARIABLES store, last, n
Init == store = [x \in Names |-> Absent] /\ last = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \E c \in Calls : store' = After(store, Full(c)) /\ last' = <<Full(c)>>
vars == <<store, last, n>>
Spec == Init /\ [][Next]_vars

Refused == Reasons(store, last'[1]) # {}
\* Only the named file changes, only if the call is accepted, and an existing one only if this was asked for
Only == [][\A x \in Names : store'[x] # store[x] =>
             ~Refused /\ last'[1].name = x /\ (store[x] = Absent \/ last'[1].ow)]_vars
\* What was accepted is there, in the format and compression asked for
There == [][~Refused /\ last'[1].name # "" /\ ~last'[1].check =>
              LET f == store'[last'[1].name]
              IN f.p = last'[1].p /\ f.p # 0 /\ f.fmt = Fmt(last'[1])
                 /\ (last'[1].comp \in {"gzip", "bz2", "none"} => f.codec = last'[1].comp)]_vars
Compressed == \A x \in Names : store[x].codec \in {"absent", "none", "gzip", "bz2"}
=============================================================================
