------------------------------ MODULE Terrain ------------------------------
(* Filled terrain, flat-free terrain, flow directions, accumulated flow.    *)
EXTENDS Grid

------------------------------------------------------------------- (* C01 *)
RECURSIVE GrowRise(_, _, _)
\* cells reached from fr by never going down (reverse of a non-uphill path)
GrowRise(f, seen, fr) ==
  IF fr = {} THEN seen
  ELSE LET nx == UNION {{m \in Nbr(f, n) : At(f, m) >= At(f, n)} : n \in fr} \ seen
       IN GrowRise(f, seen \cup nx, nx)
Drained(f) == LET b == Border(f) IN GrowRise(f, b, b) = Cells(f)

MinNbr(f, c) == GMin({At(f, n) : n \in Nbr(f, c)})

\* Design level definition: smallest over all paths to the border of the largest elevation met.
\* Computed by relaxation to a fixpoint (only used on small grids, by MC_Fill).
RECURSIVE Minimax(_, _)
Minimax(dem, f) ==
  LET g == MapGrid(f, LAMBDA c : IF OnEdge(f, c) THEN At(dem, c)
                                 ELSE Min2(At(f, c), Max2(At(dem, c), MinNbr(f, c))))
  IN IF g = f THEN f ELSE Minimax(dem, g)

\* witness: ranks which decrease along a path to the border that never goes up
DrainedW(f, k) == \A c \in Interior(f) : \E m \in Nbr(f, c) : At(k, m) < At(k, c) /\ At(f, m) <= At(f, c)

FillClausesD(dem, f, drained) ==
  IF ~SameShape(dem, f) THEN {"C01.shape"}
  ELSE Cl("C01.border_equals_dem", \A c \in Border(dem) : At(f, c) = At(dem, c))
       \cup Cl("C01.never_below_dem", \A c \in Cells(dem) : At(f, c) >= At(dem, c))
       \cup Cl("C01.raised_only_as_needed",
               \A c \in Interior(dem) : At(f, c) = Max2(At(dem, c), MinNbr(f, c)))
       \cup Cl("C01.every_cell_drains", drained)
FillClauses(dem, f) == FillClausesD(dem, f, Drained(f))
FillOK(dem, f) == FillClauses(dem, f) = {}

DepthClauses(dem, f, d) ==
  IF ~(SameShape(dem, d) /\ SameShape(dem, f)) THEN {"C01.depth_shape"}
  ELSE Cl("C01.depth_is_filled_minus_dem", \A c \in Cells(dem) : At(d, c) = At(f, c) - At(dem, c))

------------------------------------------------------------------- (* C02 *)
(* Elevations of the flat-free terrain are pairs <<z, k>> ordered           *)
(* lexicographically: z in DEM units, k in units of the (tiny) steps.       *)
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PLeq(a, b) == a = b \/ PLess(a, b)
PMax(a, b) == IF PLess(a, b) THEN b ELSE a
PMin(S) == CHOOSE x \in S : \A y \in S : PLeq(x, y)
PAdd(a, k) == <<a[1], a[2] + k>>
PSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>

LowestStep(n, c, short, diag) ==
  PMin({PAdd(At(n, m), short) : m \in Orth(n, c)} \cup {PAdd(At(n, m), diag) : m \in Diag(n, c)})

StrictDescent(n) == \A c \in Interior(n) : \E m \in Nbr(n, c) : PLess(At(n, m), At(n, c))

NoFlatsClauses(dem, n, short, diag) ==
  IF ~SameShape(dem, n) THEN {"C02.shape"}
  ELSE Cl("C02.border_equals_dem", \A c \in Border(dem) : At(n, c) = At(dem, c))
       \cup Cl("C02.raised_exactly_by_the_steps",
               \A c \in Interior(dem) : At(n, c) = PMax(At(dem, c), LowestStep(n, c, short, diag)))
       \cup Cl("C02.strictly_lower_neighbour", StrictDescent(n))

\* any magnitude: elevations rank coded (order and equality only)
NoFlatsOrderClauses(dem, n) ==
  IF ~SameShape(dem, n) THEN {"C02.shape"}
  ELSE Cl("C02.border_equals_dem", \A c \in Border(dem) : At(n, c) = At(dem, c))
       \cup Cl("C02.never_below_dem", \A c \in Cells(dem) : At(n, c) >= At(dem, c))
       \cup Cl("C02.strictly_lower_neighbour",
               \A c \in Interior(dem) : \E m \in Nbr(n, c) : At(n, m) < At(n, c))

------------------------------------------------------------------- (* C03 *)
IsOrthDir(d) == d \in {0, 2, 4, 6}
ToDir(c, d) == <<c[1] + Delta(d)[1], c[2] + Delta(d)[2]>>

\* is a (of kind oa: shares an edge) strictly steeper than b?  (drops are positive pairs)
Steeper(da, oa, db, ob) ==
  IF oa = ob THEN PLess(db, da)
  ELSE LET x == IF da[1] # 0 \/ db[1] # 0 THEN da[1] ELSE da[2]
           y == IF da[1] # 0 \/ db[1] # 0 THEN db[1] ELSE db[2]
       IN IF oa THEN 2*x*x > y*y ELSE x*x > 2*y*y

LowerDirs(t, c) == {d \in 0..7 : InGrid(t, ToDir(c, d)) /\ PLess(At(t, ToDir(c, d)), At(t, c))}
D8Ok(t, fd, c) ==
  LET L == LowerDirs(t, c)
      drop(d) == PSub(At(t, c), At(t, ToDir(c, d)))
      d0 == At(fd, c)
  IN IF L = {} THEN d0 = NODIR
     ELSE /\ d0 \in L
          /\ \A d \in L : ~Steeper(drop(d), IsOrthDir(d), drop(d0), IsOrthDir(d0))

OutwardOk(fd, c) ==
  LET d == At(fd, c)
      re == c[1] = 1 \/ c[1] = NR(fd)
      ce == c[2] = 1 \/ c[2] = NC(fd)
  IN /\ d \in 0..7
     /\ IF re /\ ce THEN ~IsOrthDir(d) /\ ~(ToDir(c, d)[1] \in 1..NR(fd)) /\ ~(ToDir(c, d)[2] \in 1..NC(fd))
        ELSE IsOrthDir(d) /\ ~InGrid(fd, ToDir(c, d))

FlowdirClauses(t, fd, outward) ==
  IF ~SameShape(t, fd) THEN {"C03.shape"}
  ELSE Cl("C03.valid_codes", ValidDirs(fd))
       \cup Cl("C03.steepest_descent", \A c \in Interior(t) : D8Ok(t, fd, c))
       \cup Cl("C03.border", \A c \in Border(t) : IF outward THEN OutwardOk(fd, c) ELSE At(fd, c) = NODIR)

\* flow direction raster of a DEM, against its filled terrain
FlowdirDemClausesD(f, fd, drains) ==
  IF ~SameShape(f, fd) THEN {"C03.shape"}
  ELSE Cl("C03.valid_codes", ValidDirs(fd))
       \cup Cl("C03.every_cell_has_direction", \A c \in Cells(fd) : At(fd, c) # NODIR)
       \cup Cl("C03.border", \A c \in Border(fd) : OutwardOk(fd, c))
       \cup Cl("C03.flow_leaves_the_raster", drains)
       \cup Cl("C03.never_uphill", \A c \in Cells(fd) : Recv(fd, c) \in {OFF, STOP} \/ At(f, Recv(fd, c)) <= At(f, c))
FlowdirDemClauses(f, fd) == FlowdirDemClausesD(f, fd, DrainsOff(fd))

------------------------------------------------------------------- (* C04 *)
AccumClauses(fd, acc) ==
  IF ~SameShape(fd, acc) THEN {"C04.shape"}
  ELSE Cl("C04.one_plus_upstream",
          \A c \in Cells(fd) : At(acc, c) = 1 + SumOver(Donors(fd, c), LAMBDA n : At(acc, n)))
       \cup Cl("C04.exits_sum_to_cells",
          SumOver(Exits(fd), LAMBDA c : At(acc, c)) = NR(fd) * NC(fd))
\* a single row of n cells which all point the same way (d is 2, right, or 6, left); the values are given as runs
\* [len, first, step]: len cells from left to right, the first with value first, every next one step more
ExpandRuns(runs) == FoldLeft(LAMBDA acc, x : acc \o [i \in 1..x.len |-> x.first + (i - 1) * x.step], <<>>, runs)
AccumRunClauses(n, d, runs) ==
  LET start == [k \in 1..(Len(runs) + 1) |-> FoldLeft(LAMBDA a, j : a + runs[j].len, 0, [i \in 1..(k - 1) |-> i])]
      want(i) == IF d = 2 THEN i ELSE n - i + 1       \* i: the i-th cell from the left
  IN IF start[Len(runs) + 1] # n THEN {"C04.shape"}
     ELSE Cl("C04.one_plus_upstream",
             \A k \in DOMAIN runs : runs[k].first = want(start[k] + 1)
                                    /\ (runs[k].len > 1 => runs[k].step = (IF d = 2 THEN 1 ELSE -1)))
=============================================================================
