------------------------------- MODULE Files --------------------------------
(* Dumping results: a store of files, and the call that writes to it.       *)
(* A file is [codec |-> "none" | "gzip" | "bz2", fmt |-> "raw" | "json",    *)
(* p |-> payload] or Absent.  A call is                                     *)
(*   [name, parts |-> the name split at dots, p, fmt, comp, ow, check]      *)
(* with name = "" if no file is given, fmt = "" if no format is given,      *)
(* p = 0 if the data cannot be written down and check if nothing is to be   *)
(* written.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Absent == [codec |-> "absent", fmt |-> "absent", p |-> 0]
Formats == {"", "raw", "json"}
Compressions == {"auto", "none", "gzip", "bz2"}
Fmt(c) == IF c.fmt = "" THEN "raw" ELSE c.fmt
Suffix(parts) == IF Len(parts) < 2 THEN "" ELSE parts[Len(parts)]
Codec(c) == IF c.comp = "auto" THEN (IF Suffix(c.parts) \in {"gzip", "bz2"} THEN Suffix(c.parts) ELSE "none") ELSE c.comp

\* The reasons to refuse a call
Reasons(store, c) ==
  (IF c.fmt \in Formats THEN {} ELSE {"ValueError"})
  \cup (IF c.comp \in Compressions THEN {} ELSE {"ValueError"})
  \cup (IF c.comp \in {"gzip", "bz2"} /\ c.name = "" THEN {"ValueError"} ELSE {})
  \cup (IF c.name # "" /\ ~c.valid THEN {"ValueError"} ELSE {})
  \cup (IF c.name # "" /\ c.valid /\ store[c.name] # Absent /\ ~c.ow THEN {"FileExistsError"} ELSE {})
  \cup (IF c.p = 0 /\ ~c.check /\ (c.name # "" \/ Fmt(c) = "json") THEN {"data"} ELSE {})
Content(c) == [codec |-> Codec(c), fmt |-> Fmt(c), p |-> c.p]
After(store, c) == IF Reasons(store, c) # {} \/ c.name = "" \/ c.check THEN store ELSE [store EXCEPT ![c.name] = Content(c)]

\* What reading a file gives back: the payload, as an object (json) or as bytes which hold it
Kind(f) == IF f.fmt = "json" THEN "json" ELSE "binary"
=============================================================================
