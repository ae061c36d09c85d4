----------------------------- MODULE MC_Pipeline -----------------------------
(* The specified system itself (module Malstroem), run from an elevation    *)
(* model to the final depths and extents, with two amounts of rain.  Every  *)
(* step is a Step of the specification; where the specification allows more *)
(* than one result (ties between flow directions, between pour points,      *)
(* water levels within their tolerance) all of them are explored.           *)
(* Checked: every step can always be taken (the requirements do not         *)
(* contradict each other), and the guarantees for the system as a whole     *)
(* (C22) and for flow over filled terrain (C03) follow from those of the    *)
(* single steps.                                                            *)
EXTENDS Malstroem
CONSTANTS ROWS, COLS, ZMAX,
          FINE,            \* water levels in 1/FINE of a unit of elevation
          RAIN, MORE       \* rain per cell in units of 1/FINE of an elevation unit times a cell
VARIABLES k, ground, stage, out
vars == <<k, ground, stage, out, store, memo, native>>
SHORT == 1
DIAG == 2
N == ROWS * COLS
CellNo(i) == <<((i - 1) \div COLS) + 1, ((i - 1) % COLS) + 1>>
Put(g, c, v) == [g EXCEPT ![c[1]][c[2]] = v]
G0 == [r \in 1..ROWS |-> [c \in 1..COLS |-> 0]]
Init == k = 0 /\ ground = G0 /\ stage = 0 /\ out = {} /\ MInit
Choose == /\ k < N /\ k' = k + 1
          /\ \E z \in 0..ZMAX : ground' = Put(ground, CellNo(k'), z)
          /\ UNCHANGED <<stage, out, store, memo, native>>
Ev(op, r, w, p) == [op |-> op, r |-> r, w |-> w, p |-> p, err |-> ""]
W(n, v) == [n |-> n, v |-> v]
None == [x \in {} |-> 0]
Fine(g) == MapGrid(g, LAMBDA c : At(g, c) * FINE)
Prod(S, Opt(_), start, Add(_, _, _)) == FoldLeft(LAMBDA acc, x : UNION {{Add(g, x, o) : o \in Opt(x)} : g \in acc}, {start}, SetToSeq(S))

--------------------------------------------------------------- (* designs *)
Top == MapGrid(ground, LAMBDA c : IF OnEdge(ground, c) THEN At(ground, c) ELSE ZMAX + 1)
RECURSIVE NoFlat(_)
NoFlat(n) == LET m == MapGrid(n, LAMBDA c : IF OnEdge(ground, c) THEN <<At(ground, c), 0>>
                                            ELSE LET lo == PMax(<<At(ground, c), 0>>, LowestStep(n, c, SHORT, DIAG)) IN IF PLess(lo, At(n, c)) THEN lo ELSE At(n, c))
             IN IF m = n THEN n ELSE NoFlat(m)
Best(t, c) == IF OnEdge(t, c) THEN {d \in 0..7 : OutwardOk(Put(G0, c, d), c)} ELSE {d \in 0..7 : D8Ok(t, Put(MapGrid(t, LAMBDA x : NODIR), c, d), c)}
Flowdirs(t) == Prod(Cells(t), LAMBDA c : Best(t, c), MapGrid(t, LAMBDA x : NODIR), Put)
AccumOf(fd) == MapGrid(fd, LAMBDA c : Cardinality(Upstream(fd, {c})))
Lowest(K) == CHOOSE c \in K : \A d \in K : c[1] < d[1] \/ (c[1] = d[1] /\ c[2] <= d[2])
LabelOf(depth) == LET parts == ComponentsOf(depth, Wet(depth))
                      seq == SetToSortSeq(parts, LAMBDA a, b : LET x == Lowest(a) y == Lowest(b) IN x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
                  IN MapGrid(depth, LAMBDA c : IF c \in Wet(depth) THEN CHOOSE i \in DOMAIN seq : c \in seq[i] ELSE 0)
WshedOf(fd, lab) == MapGrid(fd, LAMBDA c : LET p == Path(fd, c) hits == {i \in DOMAIN p : At(lab, p[i]) # 0}
                                           IN IF hits = {} THEN 0 ELSE At(lab, p[GMin(hits)]))
PourSets(acc, lab, depth, wsh) ==
  LET ks == Labels(lab) \cup {0}
      best(x) == {c \in CellsOf(lab, x) : \A d \in CellsOf(lab, x) : At(acc, d) <= At(acc, c)}
      P(x, c) == LET K == CellsOf(lab, x) v == SumOver(K, LAMBDA y : At(depth, y)) n == Cardinality(CellsOf(wsh, x))
                 IN [id |-> x, row |-> c[1], col |-> c[2], area_c |-> Cardinality(K), vol_d |-> v, dmax_d |-> GMax({At(depth, y) : y \in K}),
                     wsh_c |-> n, fumm100 |-> FracDigits(v, n, 5), fumm_v |-> v]
  IN Prod(ks, best, <<>>, LAMBDA s, x, c : Append(s, P(x, c)))
Hyp(K, z, res) == LET lo == (GMin({At(z, c) : c \in K}) \div res) * res
                      n == (GMax({At(z, c) : c \in K}) - lo) \div res + 1
                  IN [n |-> n, lo |-> lo, hi |-> lo + n * res, res |-> res, zmin |-> GMin({At(z, c) : c \in K}), zmax |-> GMax({At(z, c) : c \in K}),
                      counts |-> [i \in 1..n |-> Cardinality({c \in K : At(z, c) >= lo + (i-1) * res /\ At(z, c) < lo + i * res})]]
\* all level lists within the tolerance of C14
RES == FINE \div 2
LevelSets(lab, z, fin, nodes, depth) ==
  LET opts(x) == IF x = 0 THEN {0}
                 ELSE LET K == CellsOf(lab, x) lo == GMin({At(z, c) : c \in K}) sp == lo + FINE * GMax({At(depth, c) : c \in K})
                      IN lo..sp
      L(x, v) == LET f == NodeOf(fin, x) K == CellsOf(lab, x) lo == GMin({At(z, c) : c \in K}) IN
                   [id |-> x, v |-> f.v, cap |-> NodeOf(nodes, x).cap, level |-> v, lrank |-> v,
                    dmax |-> IF x = 0 THEN 0 ELSE v - lo, spill |-> IF x = 0 THEN 0 ELSE lo + FINE * GMax({At(depth, c) : c \in K})]
      ok(x) == {v \in opts(x) : x = 0 \/ LevelOk(z, CellsOf(lab, x), L(x, v), RES, 0) = {}}
  IN Prod(Labels(lab) \cup {0}, ok, <<>>, LAMBDA s, x, v : Append(s, L(x, v)))

--------------------------------------------------------------- (* the steps *)
St(n) == store[n]
RunStep(s, sx, rain) ==
  CASE s = 1 -> {Ev("RainMm", [nodes |-> "nodes"], [vols |-> W("vols" \o sx, [i \in DOMAIN St("nodes") |-> [id |-> St("nodes")[i].id, vol |-> St("nodes")[i].wsh * rain]])],
         [mm |-> rain, cells |-> N])}
    [] s = 2 -> {Ev("Input", None, [n |-> W("net" \o sx, [i \in DOMAIN St("nodes") |-> LET x == St("nodes")[i] IN [id |-> x.id, down |-> x.down, cap |-> x.cap, inp |-> NodeOf(St("vols" \o sx), x.id).vol]])], None)}
    [] s = 3 -> {Ev("Spill", [nodes |-> "net" \o sx],
         [fin |-> W("fin" \o sx, [i \in DOMAIN St("net" \o sx) |->
            LET net == St("net" \o sx)
                infl[y \in DOMAIN net] == net[y].inp + SumOver({z \in DOMAIN net : net[z].down = net[y].id}, LAMBDA z : Max2(0, infl[z] - net[z].cap))
                v == Min2(infl[i], net[i].cap)
            IN [id |-> net[i].id, inp |-> net[i].inp, v |-> v, spill |-> infl[i] - v, pct |-> IF net[i].cap = 0 THEN NONE ELSE FracDigits(v, net[i].cap, 2)]])],
         [digits |-> 2])}
    [] s = 4 -> {Ev("Levels", IF sx = "2" THEN [lab |-> "lab", dem |-> "demf", prev |-> "lev"] ELSE [lab |-> "lab", dem |-> "demf"],
         [lev |-> W("lev" \o sx, l)], [res |-> RES, slack |-> 0]) : l \in LevelSets(St("lab"), St("demf"), St("fin" \o sx), St("nodes"), St("depths"))}
    [] s = 5 -> {Ev("Input", None, [n |-> W("zs" \o sx, [i \in DOMAIN St("lev" \o sx) |-> [id |-> St("lev" \o sx)[i].id, z |-> St("lev" \o sx)[i].level]])], None)}
    [] s = 6 -> {Ev("FinalDepths", [lab |-> "lab", dem |-> "demf", levels |-> "zs" \o sx],
         [fdepth |-> W("fdepth" \o sx, MapGrid(St("lab"), LAMBDA c : LET x == At(St("lab"), c) IN IF x = 0 THEN 0 ELSE Max2(0, LevelAt(St("zs" \o sx), x) - At(St("demf"), c))))], None)}
    [] s = 7 -> {Ev("FinalLabels", [lab |-> "lab", dem |-> "demf", levels |-> "zs" \o sx],
         [flab |-> W("flab" \o sx, MapGrid(St("lab"), LAMBDA c : LET x == At(St("lab"), c) IN IF x # 0 /\ At(St("demf"), c) <= LevelAt(St("zs" \o sx), x) THEN x ELSE 0))], None)}
    [] s = 8 -> {Ev("Account", [lab |-> "lab", wsh |-> "wsh", dem |-> "dem", filled |-> "filled", nodes |-> "nodes", fin |-> "fin" \o sx, fdepth |-> "fdepth" \o sx, flab |-> "flab" \o sx],
         None, [vu |-> FINE, fine |-> FINE, rain |-> rain, filtered |-> FALSE])}
Prelude(s) ==
  CASE s = 1 -> {Ev("Input", None, [a |-> W("dem", ground), b |-> W("demp", MapGrid(ground, LAMBDA c : <<At(ground, c), 0>>)), c |-> W("demf", Fine(ground))], None)}
    [] s = 2 -> {Ev("Fill", [dem |-> "dem"], [filled |-> W("filled", Minimax(ground, Top))], None)}
    [] s = 3 -> {Ev("Depths", [dem |-> "dem", filled |-> "filled"], [depths |-> W("depths", MapGrid(ground, LAMBDA c : At(St("filled"), c) - At(ground, c)))], None)}
    [] s = 4 -> {Ev("NoFlats", [dem |-> "demp"], [nofl |-> W("nofl", NoFlat(MapGrid(ground, LAMBDA c : <<ZMAX + 9, 0>>)))], [short |-> SHORT, diag |-> DIAG])}
    [] s = 5 -> {Ev("Flowdir", [t |-> "nofl"], [fd |-> W("fd", g)], [outward |-> TRUE]) : g \in Flowdirs(St("nofl"))}
    [] s = 6 -> {Ev("FlowdirDem", [filled |-> "filled"], [fd |-> W("fd", St("fd"))], None)}
    [] s = 7 -> {Ev("Accum", [fd |-> "fd"], [acc |-> W("acc", AccumOf(St("fd")))], None)}
    [] s = 8 -> {Ev("Label", [depth |-> "depths"], [lab |-> W("lab", LabelOf(St("depths")))], [tokens |-> <<>>, dden |-> 1, ca |-> <<1, 1>>])}
    [] s = 9 -> {Ev("Wsheds", [fd |-> "fd", lab |-> "lab"], [wsh |-> W("wsh", WshedOf(St("fd"), St("lab")))], [u |-> 0])}
    [] s = 10 -> {Ev("PourPoints", [fd |-> "fd", lab |-> "lab", acc |-> "acc", depth |-> "depths", wsh |-> "wsh"], [pps |-> W("pps", p)], [dden |-> 1])
         : p \in PourSets(St("acc"), St("lab"), St("depths"), St("wsh"))}
    [] s = 11 -> {Ev("Network", [fd |-> "fd", lab |-> "lab", pps |-> "pps"],
         [nodes |-> W("nodes", [i \in DOMAIN St("pps") |-> LET p == St("pps")[i] IN
              [id |-> p.id, down |-> Downstream(St("fd"), St("lab"), <<p.row, p.col>>), junction |-> FALSE, row |-> p.row, col |-> p.col,
               cap |-> p.vol_d * FINE, wsh |-> p.wsh_c, wshed |-> p.wsh_c, area |-> p.area_c, bspot |-> p.id]])], [geometry |-> FALSE, vu |-> FINE])}
LastStep == {Ev("MoreRain", [fin1 |-> "fin", fin2 |-> "fin2", lev1 |-> "lev", lev2 |-> "lev2", fdepth1 |-> "fdepth", fdepth2 |-> "fdepth2", flab1 |-> "flab", flab2 |-> "flab2"], None, None)}
NSTEPS == 11 + 8 + 8 + 1
Offer(s) == IF s <= 11 THEN Prelude(s) ELSE IF s <= 19 THEN RunStep(s - 11, "", RAIN) ELSE IF s <= 27 THEN RunStep(s - 19, "2", MORE) ELSE LastStep
\* what the specification would object to (nothing, for the results offered, except levels which fall with more rain)
Objection(e) == LET f == Failing(e) IN IF e.op = "Levels" THEN f \ {"C14.more_water_never_lower"} ELSE f
Do == /\ k = N /\ stage < NSTEPS /\ stage' = stage + 1
      /\ \E e \in Offer(stage') : IF Failing(e) = {} THEN Step(e) /\ out' = {} ELSE Objection(e) # {} /\ out' = Objection(e) /\ UNCHANGED <<store, memo, native>>
      /\ UNCHANGED <<k, ground>>
Next == Choose \/ Do
Spec == Init /\ [][Next]_vars
\* no step of the system is ever objected to
NoObjection == out = {}
\* ... nor is the system ever stuck
Finished == k = N /\ stage = NSTEPS
NotStuck == Finished \/ ENABLED Next
=============================================================================
