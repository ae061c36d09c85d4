----------------------------- MODULE GenCommands -----------------------------
(* Histories of commands over one shared datasource and directory.          *)
(* Every scenario s runs initvolumes, finalvolumes, finallevels and         *)
(* finalbluespots (optionally polys) on layers of its own; in between other *)
(* commands write outputs of their own.  A command is enabled when its      *)
(* inputs exist and its output does not exist yet.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Scenarios, Others, Stages, MAXLEN, EARLY
VARIABLES hist, done, others
vars == <<hist, done, others>>
AllStages == <<"initvolumes", "finalvolumes", "finallevels", "finalbluespots", "finalpolys">>
Init == hist = <<>> /\ done = [s \in Scenarios |-> 0] /\ others = {}
Stage(s) == /\ done[s] < Stages
            /\ done' = [done EXCEPT ![s] = @ + 1]
            /\ hist' = Append(hist, <<AllStages[done[s] + 1], s>>)
            /\ UNCHANGED others
Other(o) == /\ o \notin others
            /\ others' = others \cup {o}
            /\ hist' = Append(hist, <<o, "">>)
            /\ UNCHANGED done
\* a command whose input does not exist (yet): it has to be refused and must not change anything
Refusals == {i \in DOMAIN hist : Len(hist[i]) = 3}
Early(s, k) == /\ Cardinality(Refusals) < EARLY /\ Len(hist) % 5 = 3
               /\ k > done[s] + 1
               /\ hist' = Append(hist, <<AllStages[k], s, "refused">>)
               /\ UNCHANGED <<done, others>>
Next == Len(hist) < MAXLEN /\ ((\E s \in Scenarios : \E k \in 2..Stages : Early(s, k)) \/ (\E s \in Scenarios : Stage(s)) \/ \E o \in Others : Other(o))
Spec == Init /\ [][Next]_vars
\* a command's inputs exist and its output is new
Sound == /\ \A i, j \in DOMAIN hist \ Refusals : i # j => hist[i] # hist[j]
         /\ \A i \in DOMAIN hist : \A k \in 1..4 :
              i \notin Refusals /\ hist[i][1] = AllStages[k+1] => \E j \in 1..(i-1) : hist[j] = <<AllStages[k], hist[i][2]>>
         /\ \A i \in Refusals : \A k \in 1..4 :
              hist[i][1] = AllStages[k+1] => \A j \in 1..(i-1) : hist[j] # <<AllStages[k], hist[i][2]>>
Complete == Len(hist) = MAXLEN \/ ((\A s \in Scenarios : done[s] = Stages) /\ others = Others)
Emit == Complete => PrintT(ToJson([history |-> hist]))
=============================================================================
