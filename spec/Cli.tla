-------------------------------- MODULE Cli --------------------------------
(* The command line: words (sequences of characters) say which parameters   *)
(* of the optimizer and of its call get which values.  An option is         *)
(* --name=value or --name followed by its value, in any place and with      *)
(* dashes or underscores in the name; without a value it is True.  The      *)
(* first other word is the command, further ones are the parameters which   *)
(* no option gives, in their order.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Dash == 45
Under == 95
Eq == 61
True == <<84, 114, 117, 101>>
IsOption(w) == Len(w) > 2 /\ w[1] = Dash /\ w[2] = Dash
Name(w) == [j \in DOMAIN w |-> IF w[j] = Dash THEN Under ELSE w[j]]
\* Position of the first = (0: none)
At(w) == LET Q == {j \in DOMAIN w : w[j] = Eq} IN IF Q = {} THEN 0 ELSE CHOOSE j \in Q : \A u \in Q : j <= u

\* order: the names of the parameters which words without name stand for
Parse(words, order) ==
  LET Step(st, w) ==
        IF IsOption(w)
        THEN LET p == At(w)
                 close == IF st.want = <<>> THEN st.set ELSE st.set \cup {<<st.want, True>>}
             IN IF p > 0 THEN [st EXCEPT !.set = close \cup {<<Name(SubSeq(w, 3, p - 1)), SubSeq(w, p + 1, Len(w))>>}, !.want = <<>>]
                ELSE [st EXCEPT !.set = close, !.want = Name(SubSeq(w, 3, Len(w)))]
        ELSE IF st.want # <<>> THEN [st EXCEPT !.set = @ \cup {<<st.want, w>>}, !.want = <<>>]
        ELSE [st EXCEPT !.free = Append(@, w)]
      end == FoldLeft(Step, [set |-> {}, want |-> <<>>, free |-> <<>>], words)
      set == end.set \cup (IF end.want = <<>> THEN {} ELSE {<<end.want, True>>})
      names == SelectSeq(order, LAMBDA x : \A pr \in set : pr[1] # x)
  IN [command |-> IF end.free = <<>> THEN <<>> ELSE end.free[1],
      set |-> set \cup {<<names[j], end.free[j + 1]>> : j \in 1..(Len(end.free) - 1)}]

\* Ways of writing an option
Glued(name, value) == <<<<Dash, Dash>> \o name \o <<Eq>> \o value>>
Apart(name, value) == <<<<Dash, Dash>> \o name, value>>
Bare(name) == <<<<Dash, Dash>> \o name>>
=============================================================================
