------------------------------- MODULE Levels -------------------------------
(* Hypsometry, approximate water levels, final extents, polygons.           *)
EXTENDS Grid, SequencesExt

NOVAL == -1
Entry(s, k) == NodeOf(s, k)
Ids(s) == IdsOf(s)
LabCells(lab, k) == {c \in Cells(lab) : At(lab, c) = k}

------------------------------------------------------------------- (* C13 *)
\* <<0, s[1], s[1]+s[2], ...>>
CumSeq(s) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, s)

\* hy: [id, n, lo, hi, res, counts, zmin, zmax]; all elevations in the same integer unit.
\* tol = 0: exact.  tol > 0: a cell within tol of a bin border may be counted on either side of it.
HistOk(dem, K, h, res, tol) ==
  LET zs == {At(dem, c) : c \in K}
      below(x) == Cardinality({c \in K : At(dem, c) < x})
      upto(x) == Cardinality({c \in K : At(dem, c) <= x})
      edge(i) == h.lo + i * res
      m == h.lo % res
      cum == CumSeq(h.counts)
  IN Cl("C13.bin_width", Len(h.counts) = h.n /\ h.n >= 1 /\ Abs(h.hi - (h.lo + h.n * res)) <= tol /\ Abs(h.res - res) <= tol)
     \cup Cl("C13.bins_aligned", m <= tol \/ m >= res - tol)
     \cup Cl("C13.bins_cover_all", h.lo <= GMin(zs) + tol /\ h.hi >= GMax(zs) - tol)
     \cup Cl("C13.min_max", h.zmin = GMin(zs) /\ h.zmax = GMax(zs))
     \cup (IF Len(h.counts) # h.n THEN {}
           ELSE Cl("C13.every_cell_counted", cum[h.n + 1] = Cardinality(K))
                \cup Cl("C13.right_bin",
                     \A i \in 1..(h.n - 1) : below(edge(i) - tol) <= cum[i + 1]
                                             /\ cum[i + 1] <= (IF tol = 0 THEN below(edge(i)) ELSE upto(edge(i) + tol))))
HypsClausesC(LC(_), dem, ids, hy, res, tol) ==
  IF Ids(hy) # ids \/ Len(hy) # Cardinality(ids) THEN {"C13.one_histogram_per_bluespot"}
  ELSE UNION {HistOk(dem, LC(hy[i].id), hy[i], res, tol) : i \in {j \in DOMAIN hy : hy[j].id # 0}}
       \cup Cl("C13.background_empty", \A i \in DOMAIN hy : hy[i].id = 0 => hy[i].n = 0 /\ hy[i].counts = <<>>)
\* The extremes exactly as they are in the raster: rank = elevations replaced by their ranks; x: [id, lo, hi] ranks of the reported extremes
RanksExact(lab, rank, xs) ==
  \A i \in DOMAIN xs : xs[i].id # 0 =>
    LET zs == {At(rank, c) : c \in LabCells(lab, xs[i].id)} IN zs # {} /\ xs[i].lo = GMin(zs) /\ xs[i].hi = GMax(zs)
HypsClauses(lab, dem, ids, hy, res, tol) == HypsClausesC(LAMBDA k : LabCells(lab, k), dem, ids, hy, res, tol)
HypsClausesW(lab, dem, hy, res, tol, pps, seg) ==
  IF ~SegOk(lab, pps, seg) THEN {"C13.witness"} ELSE HypsClausesC(LAMBDA k : SegCells(pps, seg, k), dem, IdsOf(pps), hy, res, tol)

------------------------------------------------------------------- (* C14 *)
\* Volume (in elevation units * cells) which cells K hold below level x
HeldBelow(dem, K, x) == SumOver(K, LAMBDA c : Max2(0, x - At(dem, c)))

\* One water level: bluespot cells K, [v, cap, level, dmax (reported), spill (zmin + max depth)]
\* all in fine units; slack: rounding of the recorded numbers
LevelOk(dem, K, x, res, slack) ==
  LET zmin == GMin({At(dem, c) : c \in K})
      n == Cardinality(K)
  IN Cl("C14.between_lowest_and_spill_level", x.level >= zmin - slack /\ x.level <= x.spill + slack)
     \cup Cl("C14.empty_at_lowest", x.v = 0 /\ x.cap > 0 => Abs(x.level - zmin) <= slack)
     \cup Cl("C14.full_at_spill_level", x.v >= x.cap => Abs(x.level - x.spill) <= slack)
     \cup Cl("C14.max_depth_is_level_minus_lowest", Abs(x.dmax - (x.level - zmin)) <= slack)
     \cup Cl("C14.within_two_bins_low", HeldBelow(dem, K, x.level - 2 * res - slack) <= x.v + n)
     \cup Cl("C14.within_two_bins_high", x.v <= HeldBelow(dem, K, x.level + 2 * res + slack) + n)

\* runs: sequence of scenarios with non decreasing volumes, each a sequence of [id, v, cap, level, lrank, dmax, spill]
LevelsClausesC(LC(_), dem, ids, lv, res, slack) ==
  IF Ids(lv) # ids \/ Len(lv) # Cardinality(ids) THEN {"C14.one_level_per_bluespot"}
  ELSE UNION {LevelOk(dem, LC(lv[i].id), lv[i], res, slack) : i \in {j \in DOMAIN lv : lv[j].id # 0}}
LevelsClauses(lab, dem, ids, lv, res, slack) == LevelsClausesC(LAMBDA k : LabCells(lab, k), dem, ids, lv, res, slack)
LevelsClausesW(lab, dem, lv, res, slack, pps, seg) ==
  IF ~SegOk(lab, pps, seg) THEN {"C14.witness"} ELSE LevelsClausesC(LAMBDA k : SegCells(pps, seg, k), dem, IdsOf(pps), lv, res, slack)
MonotoneClauses(prev, next) ==
  Cl("C14.more_water_never_lower",
     \A i \in DOMAIN next : next[i].id # 0 =>
        \A j \in DOMAIN prev : prev[j].id = next[i].id /\ prev[j].v <= next[i].v => prev[j].lrank <= next[i].lrank)

------------------------------------------------------------------- (* C15 *)
\* levels: [id, z]; values in integer units
LevelAt(levels, k) == Entry(levels, k).z
FinalDepthClauses(lab, dem, levels, d) ==
  IF ~SameShape(lab, d) THEN {"C15.depth_shape"}
  ELSE Cl("C15.depth_inside", \A c \in Cells(lab) : At(lab, c) # 0 => At(d, c) = Max2(0, LevelAt(levels, At(lab, c)) - At(dem, c)))
       \cup Cl("C15.zero_outside", \A c \in Cells(lab) : At(lab, c) = 0 => At(d, c) = 0)
FinalLabelClauses(lab, dem, levels, f) ==
  IF ~SameShape(lab, f) THEN {"C15.extent_shape"}
  ELSE Cl("C15.extent_is_cells_not_above_level",
          \A c \in Cells(lab) : At(f, c) = (IF At(lab, c) # 0 /\ At(dem, c) <= LevelAt(levels, At(lab, c)) THEN At(lab, c) ELSE 0))

------------------------------------------------------------------- (* C21 *)
\* rings: sequence of closed rings, each a sequence of <<x, y>> in cell units (corner of cell <<1,1>> is <<0,0>>).
\* Even-odd rule for the centre of cell c: count the vertical ring edges to the right of it in its row.
CrossRow(ring, c) ==
  Cardinality({i \in 1..(Len(ring) - 1) :
      LET a == ring[i] b == ring[i+1] IN
        a[1] = b[1] /\ a[1] >= c[2] /\ Min2(a[2], b[2]) <= c[1] - 1 /\ Max2(a[2], b[2]) >= c[1]})
Inside(rings, c) == (SumOver(DOMAIN rings, LAMBDA i : CrossRow(rings[i], c))) % 2 = 1
CellsIn(g, rings) == {c \in Cells(g) : Inside(rings, c)}

RECURSIVE GrowEq(_, _, _, _)
GrowEq(g, v, seen, fr) ==
  IF fr = {} THEN seen
  ELSE LET nx == {n \in UNION {Nbr(g, c) : c \in fr} : At(g, n) = v} \ seen
       IN GrowEq(g, v, seen \cup nx, nx)
EqRegion(g, c) == GrowEq(g, At(g, c), {c}, {c})
RECURSIVE EqRegions(_, _)
EqRegions(g, S) == IF S = {} THEN {} ELSE LET K == EqRegion(g, CHOOSE c \in S : TRUE) IN {K} \cup EqRegions(g, S \ K)

RingsOk(g, rings) ==
  rings # <<>> /\ \A j \in DOMAIN rings :
     LET ring == rings[j] IN
       /\ Len(ring) >= 5 /\ ring[1] = Last(ring)
       /\ \A e \in 1..(Len(ring)-1) : ring[e][1] = ring[e+1][1] \/ ring[e][2] = ring[e+1][2]
       /\ \A e \in 1..Len(ring) : ring[e][1] \in 0..NC(g) /\ ring[e][2] \in 0..NR(g)
\* u: background value (has no polygon)
PolyClauses(g, u, feats) ==
  LET regions == EqRegions(g, {c \in Cells(g) : At(g, c) # u})
      covers == [i \in DOMAIN feats |-> CellsIn(g, feats[i].rings)]
  IN Cl("C21.axis_parallel_rings_on_cell_corners",
        \A i \in DOMAIN feats : RingsOk(g, feats[i].rings))
     \cup Cl("C21.one_polygon_per_region", Len(feats) = Cardinality(regions))
     \cup Cl("C21.each_region_covered_exactly", {covers[i] : i \in DOMAIN feats} = regions)
     \cup Cl("C21.carries_its_id", \A i \in DOMAIN feats : covers[i] # {} /\ \A c \in covers[i] : At(g, c) = feats[i].id)

\* The same for large rasters.  reg: number of the region of each cell (0: background), k: steps to the first cell of the
\* region; both are checked here.  feats[i].reg: the region the feature stands for.  A polygon covers a region exactly when
\* its rings have the vertical unit edges of the region, each once.
VertEdges(rings) == UNION {LET a == rings[j][i] b == rings[j][i+1] IN
                              IF a[1] = b[1] THEN {<<y, a[1]>> : y \in (Min2(a[2], b[2]) + 1)..Max2(a[2], b[2])} ELSE {}
                              : <<j, i>> \in UNION {{<<j, i>> : i \in 1..(Len(rings[j])-1)} : j \in DOMAIN rings}}
VertLength(rings) == SumOver(DOMAIN rings, LAMBDA j : SumOver(1..(Len(rings[j])-1), LAMBDA i :
                        IF rings[j][i][1] = rings[j][i+1][1] THEN Max2(rings[j][i][2], rings[j][i+1][2]) - Min2(rings[j][i][2], rings[j][i+1][2]) ELSE 0))
RegionsOk(g, u, reg, k) ==
  LET roots == {c \in Cells(g) : At(reg, c) # 0 /\ At(k, c) = 0}
      ids == {At(reg, c) : c \in Cells(g)} \ {0}
  IN /\ SameShape(g, reg) /\ SameShape(g, k)
     /\ ids = 1..Cardinality(roots)
     /\ \A c \in Cells(g) : /\ (At(reg, c) = 0) <=> (At(g, c) = u)
                            /\ At(reg, c) # 0 =>
                                 /\ \A n \in Nbr(g, c) : (At(g, n) = At(g, c)) <=> (At(reg, n) = At(reg, c))
                                 /\ c \in roots \/ \E n \in Nbr(g, c) : At(reg, n) = At(reg, c) /\ At(k, n) < At(k, c) /\ At(k, n) >= 0
RegionEdges(reg) ==
  UNION {LET v == At(reg, c) IN
           (IF c[2] = 1 \/ At(reg, <<c[1], c[2]-1>>) # v THEN {<<v, c[1], c[2]-1>>} ELSE {})
           \cup (IF c[2] = NC(reg) \/ At(reg, <<c[1], c[2]+1>>) # v THEN {<<v, c[1], c[2]>>} ELSE {})
         : c \in {c \in Cells(reg) : At(reg, c) # 0}}
PolyClausesW(g, u, feats, reg, k) ==
  IF ~RegionsOk(g, u, reg, k) THEN {"C21.witness"}
  ELSE LET n == Cardinality({At(reg, c) : c \in Cells(g)} \ {0})
           edges == [i \in DOMAIN feats |-> VertEdges(feats[i].rings)]
           ofregion == {<<At(reg, c), At(g, c)>> : c \in {c \in Cells(g) : At(reg, c) # 0}}
       IN Cl("C21.axis_parallel_rings_on_cell_corners", \A i \in DOMAIN feats : RingsOk(g, feats[i].rings))
          \cup Cl("C21.one_polygon_per_region", Len(feats) = n)
          \cup Cl("C21.each_region_covered_exactly",
                  /\ \A i \in DOMAIN feats : Cardinality(edges[i]) = VertLength(feats[i].rings)
                  /\ {feats[i].reg : i \in DOMAIN feats} = 1..n
                  /\ UNION {{<<feats[i].reg, e[1], e[2]>> : e \in edges[i]} : i \in DOMAIN feats} = RegionEdges(reg))
          \cup Cl("C21.carries_its_id", \A i \in DOMAIN feats : <<feats[i].reg, feats[i].id>> \in ofregion)
=============================================================================
