----------------------------- MODULE Malstroem -----------------------------
(* The system as a state machine.                                           *)
(*                                                                          *)
(* A state is a store of named artefacts (rasters, layers, tables), a memo  *)
(* of what each computation produced from which inputs, and the speedups    *)
(* switch.  A step is one public operation (a library call or a command):   *)
(* it reads named artefacts and writes named artefacts.  For every          *)
(* operation, Failing(e) is the set of names of the requirements the step e *)
(* violates; a correct step has Failing(e) = {}.                            *)
EXTENDS Terrain, Labels, Net, Levels, Output

CONSTANT PROP          \* "ALL" or the id of one property: which requirements are judged
VARIABLES store,       \* artefact name -> value
          memo,        \* computation key -> result digest
          native       \* speedups enabled?
mvars == <<store, memo, native>>

On(p) == PROP = p \/ PROP = "ALL"
When(p, cls) == IF On(p) THEN cls ELSE {}

Rd(e, role) == store[e.r[role]]
Wr(e, role) == e.w[role].v
HasR(e, role) == role \in DOMAIN e.r
HasW(e, role) == role \in DOMAIN e.w
HasP(e, k) == k \in DOMAIN e.p

------------------------------------------------------------------- (* C08/C18 *)
\* geo: [ox, oy, a, b, d, f]: affine transform x = ox + a*col + b*row, y = oy + d*col + f*row,
\* integers in a unit in which a..f are even; cell centres at +1/2
GeoX(geo, c) == geo.ox + (geo.a * (2*c[2] - 1)) \div 2 + (geo.b * (2*c[1] - 1)) \div 2
GeoY(geo, c) == geo.oy + (geo.d * (2*c[2] - 1)) \div 2 + (geo.f * (2*c[1] - 1)) \div 2
GeoClauses(pre, geo, pts) ==
  Cl(pre \o ".cell_centre", \A i \in DOMAIN pts :
       LET c == <<pts[i].row, pts[i].col>> IN pts[i].x = GeoX(geo, c) /\ pts[i].y = GeoY(geo, c))
LineClauses(pre, geo, nodes) ==
  Cl(pre \o ".line_vertices_are_cell_centres", \A i \in DOMAIN nodes :
       Len(nodes[i].xy) = Len(nodes[i].geom)
       /\ \A j \in DOMAIN nodes[i].xy : nodes[i].xy[j] = <<GeoX(geo, nodes[i].geom[j]), GeoY(geo, nodes[i].geom[j])>>)

------------------------------------------------------------------- (* C02 *)
\* floor(log2) of the recommended steps and of the largest magnitude; zero: DEM is all zero
StepsClauses(p) ==
  Cl("C02.steps_positive", p.positive)
  \cup Cl("C02.diagonal_step_larger", p.diag_over_short)
  \cup (IF p.zero THEN {}
        ELSE Cl("C02.steps_never_vanish", p.e_short >= p.e_max - 52)
             \cup Cl("C02.steps_below_single_precision", p.e_short <= p.e_max - 31))

------------------------------------------------------------------- (* C06 *)
\* a command with a filter expression: rejected (and without any output or effect) exactly when it is not well formed
FilterClauses(e) ==
  IF e.p.tokens # <<>> /\ ~WellFormed(e.p.tokens)
  THEN Cl("C06.malformed_is_rejected", e.p.failed)
       \cup Cl("C06.no_output_from_rejected_filter", ~e.p.output)
       \cup Cl("C06.nothing_evaluated", ~e.p.side_effect)
  ELSE IF e.p.failed \/ ~HasW(e, "lab") THEN {"C06.well_formed_is_accepted"}
  ELSE LabelClauses(Rd(e, "depth"), Kept(Rd(e, "depth"), e.p.tokens, e.p.dden, e.p.ca), Wr(e, "lab"), "C06")

------------------------------------------------------------------- (* C16 *)
ParityClauses(p) == Cl("C16.same_result_in_both_modes", p.python = p.native)
\* after a toggle: what the flag says and which implementation public functions show
ToggleClauses(p) ==
  LET want == IF p.cmd = "enable" THEN p.available ELSE IF p.cmd = "disable" THEN FALSE ELSE native
  IN Cl("C16.flag_reports_last_call", p.enabled = want)
     \cup Cl("C16.exactly_the_implementation_of_the_last_call", \A f \in DOMAIN p.impl : p.impl[f] = (IF want THEN "native" ELSE "python"))
     \cup Cl("C16.result_after_toggle", p.result = p.expected)

------------------------------------------------------------------- (* C17 *)
\* A raster file: [cells (canonical text), transform, crs, nodata ("" if none)]
RasterReadClauses(file, subst, out) ==
  IF ~SameShape(file.cells, out.cells) THEN {"C17.same_shape"}
  ELSE Cl("C17.same_values",
          \A c \in Cells(file.cells) :
             ~(subst # "" /\ file.nodata # "" /\ At(file.cells, c) = file.nodata) => At(out.cells, c) = At(file.cells, c))
       \cup Cl("C17.nodata_replaced",
          subst # "" /\ file.nodata # "" =>
             \A c \in Cells(file.cells) : At(file.cells, c) = file.nodata => At(out.cells, c) = subst)
       \cup Cl("C17.same_transform", out.transform = file.transform)
       \cup Cl("C17.same_crs", out.crs = file.crs)
       \cup Cl("C17.same_nodata", out.nodata = file.nodata)
       \cup Cl("C17.shape_attribute", out.shape = <<NR(file.cells), NC(file.cells)>>)
       \cup Cl("C17.resolution_attribute", out.resolution = file.res)
       \cup Cl("C17.file_unchanged", out.file_unchanged)

------------------------------------------------------------------- (* C18 *)
VectorReadClauses(layer, out) ==
  Cl("C18.same_number", Len(out.feats) = Len(layer.feats))
  \cup (IF Len(out.feats) # Len(layer.feats) THEN {}
        ELSE Cl("C18.same_attributes_in_order", \A i \in DOMAIN layer.feats : out.feats[i].attrs = layer.feats[i].attrs)
             \cup Cl("C18.same_geometry", \A i \in DOMAIN layer.feats : out.feats[i].geom = layer.feats[i].geom))
  \cup Cl("C18.same_crs", out.crs = layer.crs)

------------------------------------------------------------------- (* C20 *)
\* A command: p.key identifies command, parameters and the digests of the inputs; p.digest the digest of
\* its output; p.seen the digests of all artefacts (other than the outputs) observed after the command.
CommandClauses(e) ==
  Cl("C20.same_inputs_same_output", e.p.key \in DOMAIN memo => memo[e.p.key] = e.p.digest)
  \cup Cl("C20.nothing_else_changed",
       \A i \in DOMAIN e.p.seen : e.p.seen[i][1] \in DOMAIN store => store[e.p.seen[i][1]] = e.p.seen[i][2])
  \cup Cl("C20.nothing_else_removed",
       \A n \in DOMAIN store : n \in {e.p.seen[i][1] : i \in DOMAIN e.p.seen} \cup {e.w[x].n : x \in DOMAIN e.w})
  \cup Cl("C20.nothing_else_created",
       \A i \in DOMAIN e.p.seen : e.p.seen[i][1] \in DOMAIN store)
\* a command whose named input does not exist
RefusedClauses(e) ==
  Cl("C20.reads_only_named_inputs", e.p.failed)
  \cup Cl("C20.refused_command_changes_nothing",
       {e.p.seen[i][1] : i \in DOMAIN e.p.seen} = DOMAIN store /\ \A i \in DOMAIN e.p.seen : store[e.p.seen[i][1]] = e.p.seen[i][2])

------------------------------------------------------------------- (* C22 *)
SumSeq(s, Op(_)) == SumOver(DOMAIN s, LAMBDA i : Op(s[i]))
\* all volumes in a common integer unit; vu: that unit per (depth unit * cell)
AccountClauses(e) ==
  LET lab == Rd(e, "lab") w == Rd(e, "wsh")
      dem == Rd(e, "dem") filled == Rd(e, "filled")
      full(c) == At(filled, c) - At(dem, c)
      nodes == Rd(e, "nodes") fin == Rd(e, "fin") fd == Rd(e, "fdepth") fl == Rd(e, "flab")
      N == NR(lab) * NC(lab)
      roots == {i \in DOMAIN nodes : nodes[i].down = NONE}
      fval(k) == NodeOf(fin, k)
      isFull(k) == k # 0 /\ HasId(fin, k) /\ HasId(nodes, k) /\ fval(k).v = NodeOf(nodes, k).cap
  IN Cl("C22.watershed_areas_cover_the_raster", SumSeq(nodes, LAMBDA x : x.wsh) = N)
     \cup Cl("C22.node_drains_its_own_watershed",
          \A i \in DOMAIN nodes : nodes[i].wsh = Cardinality({c \in Cells(w) : At(w, c) = nodes[i].id}))
     \cup Cl("C22.node_holds_its_own_bluespot",
          \A i \in DOMAIN nodes : nodes[i].id = 0 \/ nodes[i].cap = e.p.vu * SumOver({c \in Cells(lab) : At(lab, c) = nodes[i].id}, LAMBDA c : full(c)))
     \cup Cl("C22.bluespots_are_complete",
          \A c \in Cells(lab) : full(c) > 0 => \A m \in Nbr(lab, c) : full(m) > 0 => (At(lab, c) # 0 <=> At(lab, m) # 0))
     \cup Cl("C22.all_bluespots_without_filter", e.p.filtered \/ \A c \in Cells(lab) : full(c) > 0 => At(lab, c) # 0)
     \cup Cl("C22.capacities_are_the_depth_volume",
          SumOver({i \in DOMAIN nodes : nodes[i].id # 0}, LAMBDA i : nodes[i].cap)
            = e.p.vu * SumOver({c \in Cells(lab) : At(lab, c) # 0}, LAMBDA c : full(c)))
     \cup Cl("C22.rain_falls_on_the_whole_raster", SumSeq(fin, LAMBDA x : x.inp) = e.p.rain * N)
     \cup Cl("C22.water_is_held_or_leaves",
          SumSeq(fin, LAMBDA x : x.inp) = SumSeq(fin, LAMBDA x : x.v) + SumOver(roots, LAMBDA i : fval(nodes[i].id).spill))
     \cup Cl("C22.never_above_capacity", \A i \in DOMAIN nodes : fval(nodes[i].id).v <= nodes[i].cap)
     \cup Cl("C22.final_extent_within_bluespots", \A c \in Cells(lab) : At(fl, c) \in {0, At(lab, c)})
     \cup Cl("C22.final_depth_within_full_depth",
          \A c \in Cells(lab) : At(fd, c) >= 0 /\ At(fd, c) <= (IF At(lab, c) = 0 THEN 0 ELSE full(c) * e.p.fine))
     \cup Cl("C22.full_bluespot_shows_full_depth",
          \A c \in Cells(lab) : isFull(At(lab, c)) => At(fd, c) = full(c) * e.p.fine /\ At(fl, c) = At(lab, c))
     \cup Cl("C22.water_implies_extent", \A c \in Cells(lab) : At(fd, c) > 0 => At(fl, c) # 0)
MoreRainClauses(e) ==
  LET f1 == Rd(e, "fin1") f2 == Rd(e, "fin2") l1 == Rd(e, "lev1") l2 == Rd(e, "lev2")
      d1 == Rd(e, "fdepth1") d2 == Rd(e, "fdepth2") g1 == Rd(e, "flab1") g2 == Rd(e, "flab2")
  IN Cl("C22.more_rain_never_lowers_a_volume",
        \A i \in DOMAIN f1 : NodeOf(f2, f1[i].id).v >= f1[i].v /\ NodeOf(f2, f1[i].id).spill >= f1[i].spill)
     \cup Cl("C22.more_rain_never_lowers_a_level", \A i \in DOMAIN l1 : l1[i].id # 0 => NodeOf(l2, l1[i].id).level >= l1[i].level)
     \cup Cl("C22.more_rain_never_lowers_a_depth", \A c \in Cells(d1) : At(d2, c) >= At(d1, c))
     \cup Cl("C22.more_rain_never_shrinks_an_extent", \A c \in Cells(g1) : At(g1, c) # 0 => At(g2, c) = At(g1, c))

------------------------------------------------------------------- (* steps *)
Requirement(e) ==
  CASE e.op = "Input"      -> {}
    [] e.op = "Fill"       -> When("C01", IF HasR(e, "rank") THEN FillClausesD(Rd(e, "dem"), Wr(e, "filled"), DrainedW(Wr(e, "filled"), Rd(e, "rank")))
                                          ELSE FillClauses(Rd(e, "dem"), Wr(e, "filled")))
    [] e.op = "Depths"     -> When("C01", DepthClauses(Rd(e, "dem"), Rd(e, "filled"), Wr(e, "depths")))
    [] e.op = "NoFlats"    -> When("C02", NoFlatsClauses(Rd(e, "dem"), Wr(e, "nofl"), e.p.short, e.p.diag))
    [] e.op = "NoFlatsOrder" -> When("C02", NoFlatsOrderClauses(Rd(e, "dem"), Wr(e, "nofl")))
    [] e.op = "Steps"      -> When("C02", StepsClauses(e.p))
    [] e.op = "Flowdir"    -> When("C03", FlowdirClauses(Rd(e, "t"), Wr(e, "fd"), e.p.outward))
    [] e.op = "FlowdirDem" -> When("C03", IF HasR(e, "rank") THEN FlowdirDemClausesD(Rd(e, "filled"), Wr(e, "fd"), DrainsOffW(Wr(e, "fd"), Rd(e, "rank")))
                                          ELSE FlowdirDemClauses(Rd(e, "filled"), Wr(e, "fd")))
    [] e.op = "FlowdirOf"  -> When("C03", FlowdirClauses(Rd(e, "t"), Rd(e, "fd"), TRUE))
    [] e.op = "Accum"      -> When("C04", AccumClauses(Rd(e, "fd"), Wr(e, "acc")))
    [] e.op = "AccumRuns"  -> When("C04", AccumRunClauses(e.p.n, e.p.dir, Wr(e, "runs")))
    [] e.op = "Label" /\ HasR(e, "rank") ->
         When("C05", LabelClausesW(Rd(e, "depth"), Wr(e, "lab"), Rd(e, "rank"), "C05"))
            \cup When("C06", LabelClausesW(Rd(e, "depth"), Wr(e, "lab"), Rd(e, "rank"), "C06"))
    [] e.op = "Label" /\ ~HasR(e, "rank") ->
         LET S == Kept(Rd(e, "depth"), e.p.tokens, e.p.dden, e.p.ca)
         IN When("C05", LabelClauses(Rd(e, "depth"), S, Wr(e, "lab"), "C05"))
            \cup When("C06", LabelClauses(Rd(e, "depth"), S, Wr(e, "lab"), "C06"))
    [] e.op = "Filter"     -> When("C06", FilterClauses(e))
    [] e.op = "Wsheds"     -> When("C07", WshedClauses(Rd(e, "fd"), Rd(e, "lab"), Wr(e, "wsh"), e.p.u))
    [] e.op = "PourPoints" ->
         When("C08", LET pps == Wr(e, "pps")
                         cellcls == IF HasR(e, "acc")
                                    THEN PourCellClauses(Rd(e, "fd"), Rd(e, "lab"), Rd(e, "acc"), pps, LAMBDA a, b : a < b)
                                    ELSE PourCellClauses(Rd(e, "fd"), Rd(e, "lab"), Rd(e, "t"), pps, LAMBDA a, b : PLess(b, a))
                     IN IF "C08.one_per_bluespot" \in cellcls THEN cellcls
                        ELSE cellcls \cup (IF HasR(e, "seglab")
                                           THEN PourMeasureClausesW(Rd(e, "depth"), Rd(e, "lab"), Rd(e, "wsh"), pps, e.p.dden, Rd(e, "seglab"), Rd(e, "segwsh"))
                                           ELSE PourMeasureClauses(Rd(e, "depth"), Rd(e, "lab"), Rd(e, "wsh"), pps, e.p.dden))
                             \cup (IF HasP(e, "geo") THEN GeoClauses("C08", e.p.geo, pps) ELSE {}))
         \cup When("C18", IF HasP(e, "geo") THEN GeoClauses("C18", e.p.geo, Wr(e, "pps")) ELSE {})
    [] e.op = "Network"    ->
         When("C09", IF HasR(e, "hops") THEN NetworkClausesA(Rd(e, "fd"), Rd(e, "lab"), Rd(e, "pps"), Wr(e, "nodes"), NoCyclesW(Wr(e, "nodes"), Rd(e, "hops")))
                      ELSE NetworkClauses(Rd(e, "fd"), Rd(e, "lab"), Rd(e, "pps"), Wr(e, "nodes"))
                           \cup (IF HasP(e, "vu") THEN MeasureClauses(Rd(e, "pps"), Wr(e, "nodes"), e.p.vu) ELSE {})
                           \cup (IF HasP(e, "geo") THEN GeoClauses("C09", e.p.geo, Wr(e, "nodes")) ELSE {}))
         \cup When("C10", IF HasP(e, "geo") /\ e.p.geometry THEN LineClauses("C10", e.p.geo, Wr(e, "nodes")) ELSE {})
         \cup When("C10", IF ~e.p.geometry THEN {}
                          ELSE IF HasR(e, "own") THEN StreamClausesW(Rd(e, "fd"), Rd(e, "lab"), Rd(e, "pps"), Wr(e, "nodes"), Rd(e, "own"))
                          ELSE StreamClauses(Rd(e, "fd"), Rd(e, "lab"), Rd(e, "pps"), Wr(e, "nodes")))
         \cup When("C18", IF HasP(e, "geo") THEN GeoClauses("C18", e.p.geo, Wr(e, "nodes"))
                                                  \cup (IF e.p.geometry THEN LineClauses("C18", e.p.geo, Wr(e, "nodes")) ELSE {})
                          ELSE {})
    [] e.op = "RainMm"     -> When("C11", RainMmClauses(Rd(e, "nodes"), e.p.mm, Wr(e, "vols"))
                                          \cup (IF ~HasR(e, "wsh") THEN {}
                                                ELSE Cl("C11.rain_on_its_own_watershed", \A i \in DOMAIN Wr(e, "vols") : LET x == Wr(e, "vols")[i] IN
                                                         x.vol = e.p.mm * Cardinality({c \in Cells(Rd(e, "wsh")) : At(Rd(e, "wsh"), c) = x.id})))
                                          \cup Cl("C11.total_is_raster_times_rain",
                                                  e.p.cells = 0 \/ SumSeq(Wr(e, "vols"), LAMBDA x : x.vol) = e.p.cells * e.p.mm))
    [] e.op = "RainRaster" -> When("C11", IF HasR(e, "seg") THEN RainRasterClausesW(Rd(e, "nodes"), Rd(e, "lab"), Rd(e, "pr"), Wr(e, "vols"), Rd(e, "ids"), Rd(e, "seg"))
                                          ELSE RainRasterClauses(Rd(e, "nodes"), Rd(e, "lab"), Rd(e, "pr"), Wr(e, "vols")))
    [] e.op = "RainSame"   -> When("C11", Cl("C11.uniform_raster_equals_even_rain_over_" \o e.p.over, Rd(e, "a") = Rd(e, "b")))
    [] e.op = "Spill"      -> When("C12", IF HasR(e, "ups") THEN SpillClausesW(Rd(e, "nodes"), Wr(e, "fin"), e.p.digits, Rd(e, "ups"))
                                          ELSE SpillClauses(Rd(e, "nodes"), Wr(e, "fin"), e.p.digits))
    [] e.op = "Hyps"       -> When("C13", (IF HasR(e, "seg") THEN HypsClausesW(Rd(e, "lab"), Rd(e, "dem"), Wr(e, "hy"), e.p.res, e.p.tol, Rd(e, "ids"), Rd(e, "seg"))
                                           ELSE HypsClauses(Rd(e, "lab"), Rd(e, "dem"), Labels(Rd(e, "lab")) \cup {0},
                                                      Wr(e, "hy"), e.p.res, e.p.tol))
                                          \cup (IF ~HasP(e, "areas") THEN {} ELSE Cl("C13.cell_area", \A i \in DOMAIN e.p.areas : e.p.areas[i] = 1))
                                          \cup (IF ~HasP(e, "ranks") THEN {} ELSE Cl("C13.min_max", RanksExact(Rd(e, "lab"), Rd(e, "rank"), e.p.ranks))))
    [] e.op = "HypsText"   -> When("C13", Cl("C13.text_form_reproduces_histogram", e.p.back = Rd(e, "hy")))
    [] e.op = "Levels"     -> When("C14", (IF HasR(e, "seg") THEN LevelsClausesW(Rd(e, "lab"), Rd(e, "dem"), Wr(e, "lev"), e.p.res, e.p.slack, Rd(e, "ids"), Rd(e, "seg"))
                                           ELSE LevelsClauses(Rd(e, "lab"), Rd(e, "dem"), Labels(Rd(e, "lab")) \cup {0},
                                                        Wr(e, "lev"), e.p.res, e.p.slack))
                                          \cup (IF HasR(e, "prev") THEN MonotoneClauses(Rd(e, "prev"), Wr(e, "lev")) ELSE {}))
    [] e.op = "SameState"  -> When("C14", Cl("C14.keeps_the_" \o e.p.what, e.p.a = e.p.b))
    [] e.op = "FinalDepths" -> When("C15", FinalDepthClauses(Rd(e, "lab"), Rd(e, "dem"), Rd(e, "levels"), Wr(e, "fdepth")))
    [] e.op = "FinalLabels" -> When("C15", FinalLabelClauses(Rd(e, "lab"), Rd(e, "dem"), Rd(e, "levels"), Wr(e, "flab")))
    [] e.op = "Unchanged"  -> When("C15", Cl("C15.inputs_unchanged", e.p.before = e.p.after))
    [] e.op = "Parity"     -> When("C16", ParityClauses(e.p))
    [] e.op = "Toggle"     -> When("C16", ToggleClauses(e.p))
    [] e.op = "RasterWrite" -> {}
    [] e.op = "RasterRead" -> When("C17", RasterReadClauses(Rd(e, "file"), e.p.subst, e.p.out))
    [] e.op = "SameRead"   -> When("C17", Cl("C17.nodata_is_the_substitute_in_" \o e.p.cmd, e.p.a = e.p.b))
    [] e.op = "VectorWrite" -> {}
    [] e.op = "VectorRead" -> When("C18", VectorReadClauses(Rd(e, "layer"), e.p.out))
    [] e.op = "World"      -> When("C18", GeoClauses("C18", e.p.geo, e.p.pts))
    [] e.op = "SameArtefact" -> When("C19", Cl("C19.complete_equals_chain." \o e.p.what, e.p.a = e.p.b))
    [] e.op = "Refuses"    -> When("C19", Cl("C19.refuses_non_empty_directory", e.p.refused /\ e.p.before = e.p.after))
    [] e.op = "Command"    -> When("C20", CommandClauses(e))
    [] e.op = "Polys"      -> When("C21", (IF HasR(e, "reg") THEN PolyClausesW(Rd(e, "g"), e.p.u, e.p.feats, Rd(e, "reg"), Rd(e, "steps"))
                                           ELSE PolyClauses(Rd(e, "g"), e.p.u, e.p.feats))
                                          \cup Cl("C21.crs", e.p.crs_in = e.p.crs_out))
    [] e.op = "CommandRefused" -> When("C20", RefusedClauses(e))
    [] e.op = "WriteLayers" -> When("C23", OutputFailing(Rd(e, "ds"), Wr(e, "ds"), e.p.fmt, e.p.ddefault, e.p.dsco, e.p.lco, e.p.frm, e.p.to, e.p.wants))
    [] e.op = "Account"    -> When("C22", AccountClauses(e))
    [] e.op = "MoreRain"   -> When("C22", MoreRainClauses(e))
    [] e.op = "Again"      -> When("C22", Cl("C22.identical_runs_identical_results", e.p.a = e.p.b))
    [] OTHER               -> {PROP \o ".unknown_operation"}

Failing(e) == IF e.err # "" THEN {PROP \o ".operation_failed"} ELSE Requirement(e)

WNames(e) == {e.w[x].n : x \in DOMAIN e.w}
WVal(e, n) == e.w[CHOOSE x \in DOMAIN e.w : e.w[x].n = n].v
\* The effect of a step: outputs are stored, nothing else changes
Effect(e) ==
  /\ store' = [n \in DOMAIN store \cup WNames(e) |-> IF n \in WNames(e) THEN WVal(e, n) ELSE store[n]]
  /\ memo' = IF e.op = "Command" /\ e.err = "" THEN [k \in DOMAIN memo \cup {e.p.key} |-> IF k = e.p.key THEN e.p.digest ELSE memo[k]] ELSE memo
  /\ native' = IF e.op = "Toggle" /\ e.err = ""
               THEN (IF e.p.cmd = "enable" THEN e.p.available ELSE IF e.p.cmd = "disable" THEN FALSE ELSE native)
               ELSE native
\* A step allowed by the specification
Step(e) == Failing(e) = {} /\ Effect(e)
MInit == store = [n \in {} |-> 0] /\ memo = [n \in {} |-> 0] /\ native = FALSE
=============================================================================
