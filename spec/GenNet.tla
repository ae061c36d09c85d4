------------------------------- MODULE GenNet -------------------------------
(* Networks with capacities and input volumes, as explored by MC_Spill.     *)
EXTENDS MC_Spill, Json
GSpec == Init /\ [][Choose]_vars
Emit == k = N => PrintT(ToJson([nodes |-> [i \in Ids0 |-> [id |-> i, down |-> down[i], cap |-> cap[i], inp |-> inp[i]]]]))
=============================================================================
