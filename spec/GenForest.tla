------------------------------ MODULE GenForest ------------------------------
(* Flow direction rasters without cycles and labels, as explored by         *)
(* MC_Forest; DRAIN: only those where all water leaves the raster.          *)
EXTENDS MC_Forest, Json
CONSTANT DRAIN
GNext == Choose /\ (DRAIN => At(fd', CellNo(k')) # NODIR)
GSpec == Init /\ [][GNext]_vars
Emit == k = N => PrintT(ToJson([fd |-> fd, lab |-> lab]))
=============================================================================
