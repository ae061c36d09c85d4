-------------------------------- MODULE Net --------------------------------
(* Bluespot network, streams, input volumes, fill and spill.                *)
EXTENDS Grid, SequencesExt

NONE == -1      \* no downstream node / no value

------------------------------------------------------------------- (* C09 *)
RECURSIVE NextLabel(_, _, _, _, _)
\* first label other than own and background met from cell c on; NONE if the flow leaves first
NextLabel(fd, lab, own, c, n) ==
  IF c \in {OFF, STOP} \/ n = 0 THEN NONE
  ELSE IF At(lab, c) # own /\ At(lab, c) # 0 THEN At(lab, c)
  ELSE NextLabel(fd, lab, own, Recv(fd, c), n - 1)
Downstream(fd, lab, c) == NextLabel(fd, lab, At(lab, c), c, NR(fd) * NC(fd) + 1)


RECURSIVE ToRoot(_, _, _)
\* follow downstream ids; TRUE if a root is reached within n steps
ToRoot(nodes, k, n) ==
  IF k = NONE THEN TRUE
  ELSE IF n = 0 \/ ~HasId(nodes, k) THEN FALSE
  ELSE ToRoot(nodes, NodeOf(nodes, k).down, n - 1)

RECURSIVE NextPour(_, _, _)
\* first non junction node downstream of id k (k itself included)
NextPour(nodes, k, n) ==
  IF k = NONE \/ ~HasId(nodes, k) \/ n = 0 THEN NONE
  ELSE LET x == NodeOf(nodes, k) IN IF x.junction THEN NextPour(nodes, x.down, n - 1) ELSE k

\* pps: [id, row, col]; nodes: [id, down, junction, row, col]
NoCycles(nodes) == \A i \in DOMAIN nodes : ToRoot(nodes, nodes[i].id, Len(nodes) + 1)
\* witness: hops to a root
NoCyclesW(nodes, hops) == \A i \in DOMAIN nodes : nodes[i].down = NONE
                             \/ (HasId(nodes, nodes[i].down) /\ hops[Pos(nodes, nodes[i].down)] < hops[i])
NetworkClausesA(fd, lab, pps, nodes, acyclic) ==
  LET n == Len(nodes)
      pn == {i \in DOMAIN nodes : ~nodes[i].junction}
  IN Cl("C09.unique_ids", Cardinality(IdsOf(nodes)) = n)
     \cup Cl("C09.one_node_per_pour_point",
             {nodes[i].id : i \in pn} = IdsOf(pps) /\ Cardinality(pn) = Len(pps))
     \cup Cl("C09.node_at_pour_point",
             \A i \in pn : HasId(pps, nodes[i].id) =>
                 LET p == NodeOf(pps, nodes[i].id) IN p.row = nodes[i].row /\ p.col = nodes[i].col)
     \cup Cl("C09.downstream_exists",
             \A i \in DOMAIN nodes : nodes[i].down = NONE \/ HasId(nodes, nodes[i].down))
     \cup Cl("C09.no_cycles", acyclic)
     \cup Cl("C09.next_bluespot_downstream",
             \A i \in pn : NextPour(nodes, nodes[i].down, n + 1)
                             = Downstream(fd, lab, <<nodes[i].row, nodes[i].col>>))
\* vu: unit of the nodes' capacities per unit of the pour points' volumes
MeasureClauses(pps, nodes, vu) ==
  Cl("C09.node_keeps_the_measures_of_its_bluespot",
     \A i \in DOMAIN nodes : ~nodes[i].junction /\ HasId(pps, nodes[i].id) =>
         LET p == NodeOf(pps, nodes[i].id) n == nodes[i] IN
           n.bspot = p.id /\ n.cap = vu * p.vol_d /\ n.wshed = p.wsh_c /\ n.area = p.area_c)
NetworkClauses(fd, lab, pps, nodes) == NetworkClausesA(fd, lab, pps, nodes, NoCycles(nodes))

------------------------------------------------------------------- (* C10 *)
RECURSIVE StreamPath(_, _, _, _, _)
\* flow path from c up to and including the first cell of another bluespot (or the last raster cell)
StreamPath(fd, lab, own, c, n) ==
  IF c \in {OFF, STOP} \/ n = 0 THEN <<>>
  ELSE IF At(lab, c) # own /\ At(lab, c) # 0 THEN <<c>>
  ELSE <<c>> \o StreamPath(fd, lab, own, Recv(fd, c), n - 1)
FullPath(fd, lab, c) == StreamPath(fd, lab, At(lab, c), c, NR(fd) * NC(fd) + 1)

\* paths: function from pour point ids to cell sequences, all heading for the same bluespot.
\* The cells where two or more of them first meet, the last cell excluded.
MeetingCells(paths) ==
  LET steps == UNION {{<<paths[k][i], paths[k][i+1]>> : i \in 1..(Len(paths[k]) - 1)} : k \in DOMAIN paths}
      inner == UNION {{paths[k][i] : i \in 2..(Len(paths[k]) - 1)} : k \in DOMAIN paths}
  IN {x \in inner : Cardinality({s[1] : s \in {t \in steps : t[2] = x}}) >= 2}

RECURSIVE CutAt(_, _, _)
\* path p from index i on, up to and including the first cell in J (or its end)
CutAt(p, i, J) == IF i > Len(p) THEN <<>>
                  ELSE IF p[i] \in J THEN <<p[i]>> ELSE <<p[i]>> \o CutAt(p, i+1, J)
Stretch(p, c, J) ==   \* p from cell c (contained in p) to the next junction or the end
  LET i == CHOOSE x \in DOMAIN p : p[x] = c IN <<c>> \o CutAt(p, i + 1, J)

\* nodes: [id, down, junction, row, col, geom, cap, wshed]
StreamClauses(fd, lab, pps, nodes) ==
  LET cellOf(k) == <<NodeOf(pps, k).row, NodeOf(pps, k).col>>
      full == [k \in IdsOf(pps) |-> FullPath(fd, lab, cellOf(k))]
      grp == [k \in IdsOf(pps) |-> Downstream(fd, lab, cellOf(k))]
      groups == {grp[k] : k \in IdsOf(pps)}
      J == [g \in groups |-> MeetingCells([k \in {x \in IdsOf(pps) : grp[x] = g} |-> full[k]])]
      cell(i) == <<nodes[i].row, nodes[i].col>>
      jn == {i \in DOMAIN nodes : nodes[i].junction}
      pn == DOMAIN nodes \ jn
      jcells == UNION {J[g] : g \in groups}
      \* the node that sits on junction cell x
      jid(x) == IF \E i \in jn : cell(i) = x THEN nodes[CHOOSE i \in jn : cell(i) = x].id ELSE NONE
      grpAt(x) == CHOOSE g \in groups : x \in J[g]
      pathThrough(x) == full[CHOOSE k \in IdsOf(pps) : grp[k] = grpAt(x) /\ \E i \in DOMAIN full[k] : full[k][i] = x]
      expGeom(i) == IF i \in jn THEN Stretch(pathThrough(cell(i)), cell(i), J[grpAt(cell(i))])
                    ELSE Stretch(full[nodes[i].id], cell(i), J[grp[nodes[i].id]])
      expDown(i) == LET g == IF i \in jn THEN grpAt(cell(i)) ELSE grp[nodes[i].id]
                        last == Last(expGeom(i))
                    IN IF last \in J[g] THEN jid(last) ELSE g
      sound == /\ \A i \in jn : cell(i) \in jcells
               /\ \A i \in pn : nodes[i].id \in IdsOf(pps) /\ cell(i) = cellOf(nodes[i].id)
  IN Cl("C10.junctions_exactly_where_streams_meet",
        {cell(i) : i \in jn} = jcells /\ Cardinality(jn) = Cardinality(jcells))
     \cup Cl("C10.junctions_carry_nothing",
        \A i \in jn : nodes[i].cap = 0 /\ nodes[i].wshed = 0 /\ nodes[i].bspot = NONE)
     \cup Cl("C10.one_stream_per_node", Cardinality(IdsOf(nodes)) = Len(nodes) /\ \A i \in DOMAIN nodes : nodes[i].geom # <<>>)
     \cup (IF ~sound THEN {"C10.node_cells"}
           ELSE Cl("C10.stream_follows_flow_to_next_node", \A i \in DOMAIN nodes : nodes[i].geom = expGeom(i))
                \cup Cl("C10.stream_ends_at_downstream_node", \A i \in DOMAIN nodes : nodes[i].down = expDown(i)))
     \cup Cl("C10.no_cell_covered_twice",
        LET cover(i) == {nodes[i].geom[x] : x \in 1..(Len(nodes[i].geom) - 1)}
        IN \A i, j \in DOMAIN nodes : i < j => cover(i) \cap cover(j) = {})

\* The same for large rasters, judged cell by cell.  own: grid, the position of the node whose stream has a step
\* from this cell (0: none).  In a drained network no stream passes through its own bluespot again.
StreamClausesW(fd, lab, pps, nodes, own) ==
  LET cell(i) == <<nodes[i].row, nodes[i].col>>
      jn == {i \in DOMAIN nodes : nodes[i].junction}
      pn == DOMAIN nodes \ jn
      merging(c) == Cardinality({d \in Donors(fd, c) : At(own, d) # 0}) >= 2
      isJ(c) == At(lab, c) = 0 /\ Recv(fd, c) # OFF /\ merging(c)
      G(i) == nodes[i].geom
      jat(c) == {i \in jn : cell(i) = c}
      ends(i) == LET g == G(i) last == g[Len(g)] d == nodes[i].down IN
                   IF Len(g) > 1 /\ isJ(last) THEN HasId(nodes, d) /\ LET x == NodeOf(nodes, d) IN x.junction /\ <<x.row, x.col>> = last
                   ELSE IF Len(g) > 1 /\ At(lab, last) # 0 THEN d = At(lab, last)
                   ELSE Recv(fd, last) = OFF /\ d = NONE
      follows(i) == LET g == G(i) IN
                      /\ g # <<>> /\ g[1] = cell(i)
                      /\ \A x \in 1..(Len(g) - 1) : g[x+1] = Recv(fd, g[x])
                      /\ \A x \in 2..(Len(g) - 1) : At(lab, g[x]) = 0 /\ ~isJ(g[x])
      jcells == {c \in Cells(fd) : isJ(c)}
  IN Cl("C10.junctions_exactly_where_streams_meet", {cell(i) : i \in jn} = jcells /\ Cardinality(jn) = Cardinality(jcells))
     \cup Cl("C10.junctions_carry_nothing",
        \A i \in jn : nodes[i].cap = 0 /\ nodes[i].wshed = 0 /\ nodes[i].bspot = NONE)
     \cup Cl("C10.one_stream_per_node", Cardinality(IdsOf(nodes)) = Len(nodes) /\ \A i \in DOMAIN nodes : nodes[i].geom # <<>>)
     \cup Cl("C10.stream_follows_flow_to_next_node",
           (\A i \in pn : HasId(pps, nodes[i].id) /\ LET p == NodeOf(pps, nodes[i].id) IN cell(i) = <<p.row, p.col>>)
           /\ \A i \in DOMAIN nodes : follows(i))
     \cup Cl("C10.stream_ends_at_downstream_node", \A i \in DOMAIN nodes : G(i) # <<>> => ends(i))
     \cup Cl("C10.no_cell_covered_twice",
           /\ \A i \in DOMAIN nodes : \A x \in 1..(Len(G(i)) - 1) : At(own, G(i)[x]) = i
           /\ Cardinality({c \in Cells(fd) : At(own, c) # 0}) = SumOver(DOMAIN nodes, LAMBDA i : Max2(0, Len(G(i)) - 1)))

------------------------------------------------------------------- (* C11 *)
\* nodes: [id, junction, wsh (cells), ...]; vol in units of (mm * cell), i.e. volume*1000/cellarea
RainMmClauses(nodes, mm, vols) ==
  Cl("C11.every_node", [i \in DOMAIN vols |-> vols[i].id] = [i \in DOMAIN nodes |-> nodes[i].id])
  \cup Cl("C11.watershed_area_times_rain",
     \A i \in DOMAIN vols : HasId(nodes, vols[i].id) =>
         vols[i].vol = (IF NodeOf(nodes, vols[i].id).junction THEN 0 ELSE NodeOf(nodes, vols[i].id).wsh) * mm)
\* vol in raster units (sum of cell values)
RainRasterClausesC(nodes, LC(_), pr, vols) ==
  Cl("C11.every_node", [i \in DOMAIN vols |-> vols[i].id] = [i \in DOMAIN nodes |-> nodes[i].id])
  \cup Cl("C11.sum_over_own_cells",
     \A i \in DOMAIN vols : HasId(nodes, vols[i].id) =>
         vols[i].vol = (IF NodeOf(nodes, vols[i].id).junction THEN 0
                        ELSE SumOver(LC(vols[i].id), LAMBDA c : At(pr, c))))
RainRasterClauses(nodes, lab, pr, vols) ==
  RainRasterClausesC(nodes, LAMBDA k : {c \in Cells(lab) : At(lab, c) = k}, pr, vols)
\* ids: sequence of [id], the labels in the order of seg
RainRasterClausesW(nodes, lab, pr, vols, ids, seg) ==
  IF ~SegOk(lab, ids, seg) THEN {"C11.witness"} ELSE RainRasterClausesC(nodes, LAMBDA k : SegCells(ids, seg, k), pr, vols)

------------------------------------------------------------------- (* C12 *)
UpOf(nodes, k) == {i \in DOMAIN nodes : nodes[i].down = k}
\* ups: for every node the increasing sequence of the positions of the nodes directly upstream
UpsOk(nodes, ups) ==
  /\ Len(ups) = Len(nodes)
  /\ \A i \in DOMAIN nodes : \A x \in DOMAIN ups[i] : nodes[ups[i][x]].down = nodes[i].id /\ (x = 1 \/ ups[i][x-1] < ups[i][x])
  /\ SumOver(DOMAIN ups, LAMBDA i : Len(ups[i])) = Cardinality({i \in DOMAIN nodes : nodes[i].down # NONE})
\* nodes: [id, down, cap, inp]; fin: [id, v, spill, pct (10^digits times held/capacity, NONE if no capacity)]
SpillClausesU(nodes, fin, digits, Up(_)) ==
  IF IdsOf(fin) # IdsOf(nodes) \/ Len(fin) # Len(nodes) THEN {"C12.every_node_once"}
  ELSE LET F(i) == NodeOf(fin, nodes[i].id)
           inflow(i) == nodes[i].inp + SumOver(Up(i), LAMBDA j : F(j).spill)
           roots == {i \in DOMAIN nodes : nodes[i].down = NONE}
       IN Cl("C12.holds_min_of_inflow_and_capacity", \A i \in DOMAIN nodes : F(i).v = Min2(inflow(i), nodes[i].cap))
          \cup Cl("C12.spills_the_rest", \A i \in DOMAIN nodes : F(i).spill = Max2(0, inflow(i) - nodes[i].cap))
          \cup Cl("C12.input_volume_kept", \A i \in DOMAIN nodes : F(i).inp = nodes[i].inp)
          \cup Cl("C12.percent_filled",
               \A i \in DOMAIN nodes : IF nodes[i].cap = 0 THEN F(i).pct = NONE
                  ELSE F(i).v \in 0..nodes[i].cap =>
                       LET want == FracDigits(F(i).v, nodes[i].cap, digits) IN F(i).pct \in (want - 1)..(want + 2))
          \cup Cl("C12.water_conserved",
               SumOver(DOMAIN nodes, LAMBDA i : nodes[i].inp)
                 = SumOver(DOMAIN nodes, LAMBDA i : F(i).v) + SumOver(roots, LAMBDA i : F(i).spill))
SpillClauses(nodes, fin, digits) == SpillClausesU(nodes, fin, digits, LAMBDA i : UpOf(nodes, nodes[i].id))
SpillClausesW(nodes, fin, digits, ups) ==
  IF ~UpsOk(nodes, ups) THEN {"C12.witness"}
  ELSE SpillClausesU(nodes, fin, digits, LAMBDA i : {ups[i][x] : x \in DOMAIN ups[i]})
=============================================================================
