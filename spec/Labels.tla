------------------------------- MODULE Labels -------------------------------
(* Bluespot labels, filter expressions, local watersheds, pour points.      *)
EXTENDS Grid, SequencesExt

------------------------------------------------------------------- (* C05 *)
RECURSIVE GrowIn(_, _, _, _)
GrowIn(g, S, seen, fr) ==
  IF fr = {} THEN seen
  ELSE LET nx == (UNION {Nbr(g, c) : c \in fr} \cap S) \ seen
       IN GrowIn(g, S, seen \cup nx, nx)
\* 8-connected component of cell c within the set of cells S
Component(g, S, c) == GrowIn(g, S, {c}, {c})
RECURSIVE ComponentsOf(_, _)
ComponentsOf(g, S) ==
  IF S = {} THEN {}
  ELSE LET K == Component(g, S, CHOOSE c \in S : TRUE)
       IN {K} \cup ComponentsOf(g, S \ K)

Wet(depth) == {c \in Cells(depth) : At(depth, c) # 0}
Labels(lab) == {At(lab, c) : c \in Cells(lab)} \ {0}
CellsOf(lab, k) == {c \in Cells(lab) : At(lab, c) = k}

\* lab labels exactly the components of the cell set S
LabelClauses(depth, S, lab, pre) ==
  IF ~SameShape(depth, lab) THEN {pre \o ".shape"}
  ELSE Cl(pre \o ".labelled_exactly_where_wet", \A c \in Cells(lab) : (At(lab, c) # 0) <=> c \in S)
       \cup Cl(pre \o ".ids_without_gaps", Labels(lab) = 1..Cardinality(Labels(lab)))
       \cup Cl(pre \o ".one_id_per_region",
               \A k \in Labels(lab) : LET K == CellsOf(lab, k)
                                      IN Component(lab, S \cup K, CHOOSE c \in K : TRUE) = K)

\* the same without filter; witness: k is 0 on one cell per region and decreases towards it within the region
LabelClausesW(depth, lab, k, pre) ==
  IF ~SameShape(depth, lab) THEN {pre \o ".shape"}
  ELSE LET ids == Labels(lab)
           roots == {c \in Cells(lab) : At(lab, c) # 0 /\ At(k, c) = 0}
       IN Cl(pre \o ".labelled_exactly_where_wet", \A c \in Cells(lab) : (At(lab, c) # 0) <=> At(depth, c) # 0)
          \cup Cl(pre \o ".ids_without_gaps", ids = 1..Cardinality(ids))
          \cup Cl(pre \o ".one_id_per_region",
                  /\ Cardinality(roots) = Cardinality(ids)
                  /\ \A c \in Cells(lab) : At(lab, c) # 0 =>
                       /\ \A m \in Nbr(lab, c) : At(depth, m) # 0 => At(lab, m) = At(lab, c)
                       /\ c \in roots \/ \E m \in Nbr(lab, c) : At(lab, m) = At(lab, c) /\ At(k, m) < At(k, c) /\ At(k, m) >= 0)

------------------------------------------------------------------- (* C06 *)
(* Filter language.  A token is <<"id", name>>, <<"num", num, den>>,        *)
(* <<"cmp", op>>, <<"and">>, <<"or">>, <<"(">>, <<")">> or <<"bad">>.        *)
(* Grammar:  E ::= T {or T}    T ::= F {and F}                              *)
(*           F ::= A cmp A {cmp A} | ( E )     A ::= name | number | ( A )  *)
(* (a chain a < b < c means a < b and b < c).                               *)
(* Ev.. return <<ok, value, next position>>.                                *)
Names == {"area", "maxdepth", "volume"}
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE <<"end">>
IsAtom(t) == (t[1] = "id" /\ t[2] \in Names) \/ t[1] = "num"
\* stats: each of the three measures is a rational <<num, den>>, nothing is negative
Val(t, st) == IF t[1] = "num" THEN <<t[2], t[3]>> ELSE st[t[2]]
RECURSIVE RLess(_, _)
\* a < b for rationals, without large products (continued fractions)
RLess(a, b) == LET qa == a[1] \div a[2] qb == b[1] \div b[2]
                   ra == a[1] % a[2]    rb == b[1] % b[2]
               IN IF qa # qb THEN qa < qb
                  ELSE IF rb = 0 THEN FALSE
                  ELSE IF ra = 0 THEN TRUE
                  ELSE RLess(<<b[2], rb>>, <<a[2], ra>>)
REq(a, b) == ~RLess(a, b) /\ ~RLess(b, a)
Cmp(op, a, b) == CASE op = "<"  -> RLess(a, b)
                   [] op = ">"  -> RLess(b, a)
                   [] op = "<=" -> ~RLess(b, a)
                   [] op = ">=" -> ~RLess(a, b)
                   [] op = "==" -> REq(a, b)
                   [] op = "!=" -> ~REq(a, b)
CmpOps == {"<", ">", "<=", ">=", "==", "!="}
IsCmp(t) == t[1] = "cmp" /\ t[2] \in CmpOps
Fail == <<FALSE, FALSE, 0>>
RECURSIVE EvA(_, _, _)
EvA(ts, i, st) ==
  IF Tok(ts, i)[1] = "("
  THEN LET a == EvA(ts, i+1, st) IN IF a[1] /\ Tok(ts, a[3])[1] = ")" THEN <<TRUE, a[2], a[3]+1>> ELSE Fail
  ELSE IF IsAtom(Tok(ts, i)) THEN <<TRUE, Val(ts[i], st), i+1>> ELSE Fail
RECURSIVE EvE(_, _, _), EvT(_, _, _), EvF(_, _, _), MoreE(_, _, _), MoreT(_, _, _), Chain(_, _, _, _)
\* comparisons after a first operand (a: <<ok, value, next>>), v: truth so far
Chain(ts, a, v, st) ==
  IF IsCmp(Tok(ts, a[3]))
  THEN LET b == EvA(ts, a[3]+1, st)
       IN IF b[1] THEN Chain(ts, b, v /\ Cmp(ts[a[3]][2], a[2], b[2]), st) ELSE Fail
  ELSE <<TRUE, v, a[3]>>
EvF(ts, i, st) ==
  LET a == EvA(ts, i, st)
  IN IF a[1] /\ IsCmp(Tok(ts, a[3])) THEN Chain(ts, a, TRUE, st)
     ELSE IF Tok(ts, i)[1] = "("
     THEN LET e == EvE(ts, i+1, st)
          IN IF e[1] /\ Tok(ts, e[3])[1] = ")" THEN <<TRUE, e[2], e[3]+1>> ELSE Fail
     ELSE Fail
MoreT(ts, r, st) ==
  IF r[1] /\ Tok(ts, r[3])[1] = "and"
  THEN LET q == EvF(ts, r[3]+1, st) IN IF q[1] THEN MoreT(ts, <<TRUE, r[2] /\ q[2], q[3]>>, st) ELSE Fail
  ELSE r
EvT(ts, i, st) == MoreT(ts, EvF(ts, i, st), st)
MoreE(ts, r, st) ==
  IF r[1] /\ Tok(ts, r[3])[1] = "or"
  THEN LET q == EvT(ts, r[3]+1, st) IN IF q[1] THEN MoreE(ts, <<TRUE, r[2] \/ q[2], q[3]>>, st) ELSE Fail
  ELSE r
EvE(ts, i, st) == MoreE(ts, EvT(ts, i, st), st)
ZeroStat == [area |-> <<0, 1>>, maxdepth |-> <<0, 1>>, volume |-> <<0, 1>>]
WellFormed(ts) == LET r == EvE(ts, 1, ZeroStat) IN r[1] /\ r[3] = Len(ts) + 1
Keeps(ts, st) == IF ts = <<>> THEN TRUE ELSE EvE(ts, 1, st)[2]

\* Statistics of a set of cells: depth in units of 1/dden, cell area caN/caD
StatsOf(depth, K, dden, ca) ==
  [area |-> <<Cardinality(K) * ca[1], ca[2]>>,
   maxdepth |-> <<GMax({At(depth, c) : c \in K}), dden>>,
   volume |-> <<SumOver(K, LAMBDA c : At(depth, c)) * ca[1], dden * ca[2]>>]
\* Cells of the regions which pass the filter
Kept(depth, ts, dden, ca) ==
  IF ts = <<>> THEN Wet(depth)
  ELSE UNION {K \in ComponentsOf(depth, Wet(depth)) : Keeps(ts, StatsOf(depth, K, dden, ca))}

------------------------------------------------------------------- (* C07 *)
\* lab: labels (unassigned value u elsewhere), w: watershed raster
WshedClauses(fd, lab, w, u) ==
  IF ~(SameShape(fd, w) /\ SameShape(fd, lab)) THEN {"C07.shape"}
  ELSE Cl("C07.labels_kept", \A c \in Cells(fd) : At(lab, c) # u => At(w, c) = At(lab, c))
       \cup Cl("C07.first_label_downstream",
               \A c \in Cells(fd) : At(lab, c) = u =>
                  At(w, c) = (IF Recv(fd, c) \in {OFF, STOP} THEN u ELSE At(w, Recv(fd, c))))

------------------------------------------------------------------- (* C08 *)
\* score: a grid; best: the pour point of a label is the cell of that label with largest score
\* pps: sequence of [id, row, col (1-based), ...]
PourCellClauses(fd, lab, score, pps, less(_, _)) ==
  LET ids == {pps[i].id : i \in DOMAIN pps}
      have == Labels(lab) \cup {0}
  IN IF ids # have \/ Len(pps) # Cardinality(have) THEN {"C08.one_per_bluespot"}
     ELSE Cl("C08.inside_own_bluespot",
             \A i \in DOMAIN pps : LET c == <<pps[i].row, pps[i].col>>
                                   IN InGrid(lab, c) /\ At(lab, c) = pps[i].id)
          \cup Cl("C08.best_cell",
             \A x \in Cells(lab) : LET p == NodeOf(pps, At(lab, x)) IN
                  InGrid(lab, <<p.row, p.col>>) => ~less(At(score, <<p.row, p.col>>), At(score, x)))
          \cup Cl("C08.water_leaves_here",
             \A i \in DOMAIN pps : LET c == <<pps[i].row, pps[i].col>> IN
                  InGrid(lab, c) => LET r == Recv(fd, c) IN r = OFF \/ (r # STOP /\ At(lab, r) # pps[i].id))

\* measures: depth in 1/dden m, cell area ca = <<n, d>> m2.  The record holds
\*   area_c   area in cells, vol_d volume in units of dden*cellarea, dmax_d, wsh_c watershed in cells
\*   fumm100  1000 * volume / watershed area, in 1/100 mm;  fumm_v  the volume that much rain makes on the
\*   watershed, in the units of vol_d (no digit may be lost)
PourMeasureClausesC(depth, LC(_), WN(_), pps, dden) ==
  LET P(i) == pps[i] IN
  Cl("C08.area", \A i \in DOMAIN pps : P(i).area_c = Cardinality(LC(i)))
  \cup Cl("C08.volume", \A i \in DOMAIN pps : P(i).vol_d = SumOver(LC(i), LAMBDA c : At(depth, c)))
  \cup Cl("C08.max_depth", \A i \in DOMAIN pps : P(i).dmax_d = GMax({At(depth, c) : c \in LC(i)}))
  \cup Cl("C08.watershed_area", \A i \in DOMAIN pps : P(i).wsh_c = WN(i))
  \cup Cl("C08.fill_up_rain",
          \A i \in DOMAIN pps :
            LET v == SumOver(LC(i), LAMBDA c : At(depth, c))
                n == WN(i)
            IN IF n = 0 THEN FALSE
               ELSE LET want == FracDigits(v, dden * n, 5)   \* in 1/100 mm
                    IN P(i).fumm100 \in (want - 1)..(want + 2) /\ P(i).fumm_v = v)
PourMeasureClauses(depth, lab, w, pps, dden) ==
  PourMeasureClausesC(depth, LAMBDA i : CellsOf(lab, pps[i].id), LAMBDA i : Cardinality(CellsOf(w, pps[i].id)), pps, dden)
PourMeasureClausesW(depth, lab, w, pps, dden, sl, sw) ==
  IF ~(SegOk(lab, pps, sl) /\ SegOk(w, pps, sw)) THEN {"C08.witness"}
  ELSE PourMeasureClausesC(depth, LAMBDA i : SegCells(pps, sl, pps[i].id),
                           LAMBDA i : sw.last[i] - sw.first[i] + 1, pps, dden)
=============================================================================
