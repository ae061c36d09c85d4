------------------------------ MODULE MC_Levels ------------------------------
(* Design of hypsometry and water levels: for every small bluespot, every   *)
(* bin width and every volume (lowest first: water only ever rises here),   *)
(* the level interpolated in the cumulated histogram meets the requirements *)
(* of C13 and C14: within two bin widths of filling cells in order of       *)
(* elevation, between lowest and spill level, and never falling.            *)
EXTENDS Levels
CONSTANTS CELLS,      \* largest number of cells
          ZMAX,       \* elevations 0..ZMAX
          WIDTHS,     \* bin widths, in the same unit
          OFFSETS,    \* position of the lowest elevation
          S           \* fine units per unit of elevation
VARIABLES zs, top, res, v, level, prev
vars == <<zs, top, res, v, level, prev>>
\* a bluespot: elevations in non decreasing order, all below the spill level; the lowest one at an offset
Init == zs = <<>> /\ top = 0 /\ res = 0 /\ v = -1 /\ level = 0 /\ prev = 0
Grid1 == << [i \in 1..Len(zs) |-> zs[i] * S] >>
K == {<<1, i>> : i \in 1..Len(zs)}
Z(i) == zs[i] * S
Spill == top * S
Cap == SumOver(1..Len(zs), LAMBDA i : Spill - Z(i))
Dig == /\ v = -1 /\ Len(zs) < CELLS
       /\ \E z \in (IF zs = <<>> THEN OFFSETS ELSE zs[Len(zs)]..(zs[1] + ZMAX)) : zs' = Append(zs, z)
       /\ UNCHANGED <<top, res, v, level, prev>>
Start == /\ v = -1 /\ zs # <<>>
         /\ \E t \in (zs[Len(zs)] + 1)..(zs[1] + ZMAX + 1) : top' = t
         /\ \E w \in WIDTHS : res' = w * S
         /\ v' = 0 /\ level' = zs[1] * S /\ prev' = zs[1] * S /\ UNCHANGED zs
\* ---- histogram
Lo == (Z(1) \div res) * res
NB == (Z(Len(zs)) - Lo) \div res + 1
Count(b) == Cardinality({i \in 1..Len(zs) : Z(i) >= Lo + (b - 1) * res /\ Z(i) < Lo + b * res})
Hist == [n |-> NB, lo |-> Lo, hi |-> Lo + NB * res, res |-> res, counts |-> [b \in 1..NB |-> Count(b)], zmin |-> Z(1), zmax |-> Z(Len(zs))]
\* ---- volume below the centre of every bin: cells of the bins below it, full bins apart
Cum(b) == res * SumOver(1..(b - 1), LAMBDA x : SumOver(1..x, LAMBDA y : Count(y)))
\* the curve: nothing at the lowest elevation, the capacity at the spill level, bin centres in between
Curve == << <<0, Z(1)>> >> \o [b \in 1..Max2(0, NB - 2) |-> <<Cum(b + 1), Lo + b * res + res \div 2>>] \o << <<Cap, Spill>> >>
Interp(x) == LET c == Curve
                 j == GMax({i \in 1..(Len(c) - 1) : i = 1 \/ c[i][1] <= x})
                 a == c[j] b == c[j + 1]
             IN IF x >= Cap THEN Spill
                ELSE IF b[1] <= a[1] \/ x >= b[1] THEN b[2]
                ELSE a[2] + ((x - a[1]) * (b[2] - a[2])) \div (b[1] - a[1])
Rise == /\ v >= 0 /\ v < Cap
        /\ \E d \in {1, S} : v + d <= Cap /\ v' = v + d
        /\ level' = Interp(v') /\ prev' = level
        /\ UNCHANGED <<zs, top, res>>
Next == Dig \/ Start \/ Rise
Spec == Init /\ [][Next]_vars
On1 == v >= 0
HistogramOk == On1 /\ v = 0 => HistOk(Grid1, K, Hist, res, 0) = {}
CurveRises == On1 /\ v = 0 => \A i \in 1..(Len(Curve) - 1) : Curve[i][1] <= Curve[i + 1][1] /\ Curve[i][2] <= Curve[i + 1][2]
LevelMeetsRequirements == On1 => LevelOk(Grid1, K, [v |-> v, cap |-> Cap, level |-> level, dmax |-> level - Z(1), spill |-> Spill], res, 1) = {}
NeverFalls == On1 => level >= prev
=============================================================================
