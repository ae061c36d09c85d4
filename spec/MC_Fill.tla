------------------------------ MODULE MC_Fill ------------------------------
(* Design of depression filling and of flat-free filling: start with a      *)
(* surface that is too high everywhere but on the border and lower cells,   *)
(* one at a time and in any order, until nothing can be lowered.            *)
(* Every order ends, in the same surface; that surface is the one the       *)
(* requirements of C01 / C02 single out, and no other surface meets them.   *)
(* (The implementation scans the raster alternately in two directions and   *)
(* repeats that; the order is irrelevant, the end condition is not.)        *)
EXTENDS Terrain
CONSTANTS ROWS, COLS, ZMAX,
          SHORT, DIAG,      \* steps of the flat-free surface in units of 1/64 (0, 0: plain filling)
          ANYORDER,         \* TRUE: all orders, FALSE: one order
          UNIQUE            \* TRUE: compare with all surfaces
VARIABLES dem, f,
          truth, plain      \* what should come out (computed once)
vars == <<dem, f, truth, plain>>
Z == 0..ZMAX
SCALE == 64
\* surfaces are in 1/64 units here; HIGH is above everything
HIGH == (ZMAX + 4) * SCALE
Up(g) == [r \in 1..ROWS |-> [c \in 1..COLS |-> g[r][c] * SCALE]]
Start(g) == [r \in 1..ROWS |-> [c \in 1..COLS |-> IF r \in {1, ROWS} \/ c \in {1, COLS} THEN g[r][c] * SCALE ELSE HIGH]]
\* the lowest value the cell can have given its neighbours
Low(g, h, c) == Max2(At(g, c) * SCALE, GMin({At(h, n) + SHORT : n \in Orth(g, c)} \cup {At(h, n) + DIAG : n \in Diag(g, c)}))
\* the surface by definition: smallest over all ways out of the largest (DEM elevation + steps still to come)
RECURSIVE Direct(_, _)
Direct(g, h) == LET n == MapGrid(h, LAMBDA c : IF OnEdge(g, c) THEN At(g, c) * SCALE ELSE Min2(At(h, c), Low(g, h, c)))
                IN IF n = h THEN h ELSE Direct(g, n)
\* the filled surface
PlainLow(g, h, c) == Max2(At(g, c) * SCALE, GMin({At(h, n) : n \in Nbr(g, c)}))
RECURSIVE Plain(_, _)
Plain(g, h) == LET n == MapGrid(h, LAMBDA c : IF OnEdge(g, c) THEN At(g, c) * SCALE ELSE Min2(At(h, c), PlainLow(g, h, c)))
               IN IF n = h THEN h ELSE Plain(g, n)
Init == /\ dem \in [1..ROWS -> [1..COLS -> Z]]
        /\ f = Start(dem)
        /\ truth = Direct(dem, f)
        /\ plain = Plain(dem, f)
Lowerable(g, h) == {c \in Interior(g) : At(h, c) > Low(g, h, c)}
LowerTo(h, c, v) == [h EXCEPT ![c[1]][c[2]] = v]
First(S) == CHOOSE c \in S : \A d \in S : c[1] < d[1] \/ (c[1] = d[1] /\ c[2] <= d[2])
Next == LET L == Lowerable(dem, f) IN
          /\ L # {}
          /\ \E c \in (IF ANYORDER THEN L ELSE {First(L)}) : f' = LowerTo(f, c, Low(dem, f, c))
          /\ UNCHANGED <<dem, truth, plain>>
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Next)
Done == Lowerable(dem, f) = {}
Terminates == <>[]Done

Pairs(h) == MapGrid(h, LAMBDA c : <<At(h, c) \div SCALE, At(h, c) % SCALE>>)
DemPairs(g) == MapGrid(g, LAMBDA c : <<At(g, c), 0>>)
PlainDem == Up(dem)
Meets(h) == IF SHORT = 0 THEN FillOK(PlainDem, h)
            ELSE NoFlatsClauses(DemPairs(dem), Pairs(h), SHORT, DIAG) = {}

NeverTooLow == \A c \in Cells(dem) : At(f, c) >= At(truth, c)
SameEnd == Done => f = truth
EndMeetsRequirements == Done => Meets(f)
NotBefore == ~Done => ~Meets(f)
\* no other surface meets the requirements
OnlyOne == f = Start(dem) /\ UNIQUE =>
             LET vals == {z * SCALE + k * SHORT + j * DIAG : z \in Z, k \in 0..(IF SHORT = 0 THEN 0 ELSE 2), j \in 0..(IF SHORT = 0 THEN 0 ELSE 2)}
                 I == Interior(dem)
             IN \A a \in [I -> vals] :
                  LET h == [r \in 1..ROWS |-> [c \in 1..COLS |-> IF <<r, c>> \in I THEN a[<<r, c>>] ELSE dem[r][c] * SCALE]]
                  IN Meets(h) <=> h = truth
NearFilled == \* the flat-free surface follows the filled one: above it, by at most the steps of the longest path
  Done => \A c \in Cells(dem) : At(f, c) >= At(plain, c) /\ At(f, c) <= At(plain, c) + DIAG * Cardinality(Interior(dem))
=============================================================================
