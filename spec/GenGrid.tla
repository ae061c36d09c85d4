------------------------------- MODULE GenGrid -------------------------------
(* All small rasters over a few values (breadth first), or random larger    *)
(* ones (simulation): elevation models, depths, ids.                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXROWS, MAXCOLS, MINROWS, MINCOLS,
          MAXCELLS,       \* only shapes with at most this many cells
          VALUES, KEY
VARIABLES rows, cols, flat
vars == <<rows, cols, flat>>
Init == /\ rows \in MINROWS..MAXROWS /\ cols \in MINCOLS..MAXCOLS /\ rows * cols <= MAXCELLS
        /\ flat = <<>>
Next == /\ Len(flat) < rows * cols
        /\ \E v \in VALUES : flat' = Append(flat, v)
        /\ UNCHANGED <<rows, cols>>
Spec == Init /\ [][Next]_vars
Raster == [r \in 1..rows |-> [c \in 1..cols |-> flat[(r - 1) * cols + c]]]
Emit == Len(flat) = rows * cols => PrintT(ToJson([x \in {KEY} |-> Raster]))
TypeOk == Len(flat) <= rows * cols /\ \A i \in DOMAIN flat : flat[i] \in VALUES
=============================================================================
