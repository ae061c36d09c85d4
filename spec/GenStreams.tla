------------------------------ MODULE GenStreams ------------------------------
(* Flow direction rasters, labels and pour points, as explored by MC_Streams *)
EXTENDS MC_Streams, Json
GNext == Choose \/ PickPours
GSpec == Init /\ [][GNext]_vars
Emit == Picked => PrintT(ToJson([fd |-> fd, lab |-> lab, pps |-> [i \in DOMAIN pps |-> <<pps[i].row, pps[i].col>>]]))
=============================================================================
