------------------------------ MODULE GenToggle ------------------------------
(* All histories of switching the speedups up to length Max, with the       *)
(* switch itself as the state.  A history starts with a call, since what is  *)
(* active before the first call depends on the installation.                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Max
VARIABLES cmds, on
vars == <<cmds, on>>
Init == cmds = <<>> /\ on = TRUE
Do(c) == /\ Len(cmds) < Max
         /\ cmds' = Append(cmds, c)
         /\ on' = IF c = "enable" THEN TRUE ELSE IF c = "disable" THEN FALSE ELSE on
Next == \E c \in {"enable", "disable"} \cup (IF cmds = <<>> THEN {} ELSE {"none"}) : Do(c)
Spec == Init /\ [][Next]_vars
\* the flag is what the last call said, whatever came before
LastCall == LET calls == SelectSeq(cmds, LAMBDA c : c # "none")
            IN calls # <<>> => on = (calls[Len(calls)] = "enable")
Emit == Len(cmds) = Max => PrintT(ToJson([cmds |-> cmds]))
=============================================================================
