------------------------------ MODULE MC_Streams ------------------------------
(* Design of the stream network: every pour point sends a stream along the  *)
(* flow to the next bluespot; streams are laid one after the other, in any  *)
(* order, and where one meets a stream on the way to the same bluespot that *)
(* stream is split and a junction takes its place.  Whatever the order, the *)
(* network meets the requirements of C09 and C10 and water volumes do not   *)
(* depend on the junctions.                                                 *)
EXTENDS Terrain, Labels, Net
CONSTANTS ROWS, COLS, NLAB,
          ANYORDER     \* TRUE: every order of the pour points, FALSE: the order of their ids
VARIABLES k, fd, lab, pps, nodes
vars == <<k, fd, lab, pps, nodes>>
G0 == [r \in 1..ROWS |-> [c \in 1..COLS |-> 0]]
Outward(c) == CHOOSE d \in 0..7 : ~InGrid(G0, ToDir(c, d)) /\
                IF c[1] \in {1, ROWS} /\ c[2] \in {1, COLS}
                THEN ~IsOrthDir(d) /\ ToDir(c, d)[1] \in {0, ROWS + 1} /\ ToDir(c, d)[2] \in {0, COLS + 1}
                ELSE IsOrthDir(d)
Inner == SetToSortSeq(Interior(G0), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Put(g, c, v) == [g EXCEPT ![c[1]][c[2]] = v]
Init == /\ k = 0
        /\ fd = MapGrid(G0, LAMBDA c : IF OnEdge(G0, c) THEN Outward(c) ELSE NODIR)
        /\ lab = G0 /\ pps = <<>> /\ nodes = <<>>
\* the inner cells get a direction and a label one after the other; no cycle
Choose == /\ k < Len(Inner) /\ k' = k + 1
          /\ \E d \in 0..7 : LET f2 == Put(fd, Inner[k'], d) IN
               /\ fd' = f2
               /\ ToDir(Inner[k'], d) \notin Upstream(fd, {Inner[k']})
          /\ \E x \in 0..Min2(NLAB, 1 + GMax({At(lab, c) : c \in Cells(lab)})) : lab' = Put(lab, Inner[k'], x)
          /\ UNCHANGED <<pps, nodes>>
Labs == {At(lab, c) : c \in Cells(lab)}
Ready == k = Len(Inner)
\* the pour point of a label: a cell with most flow through it
PickPours == /\ Ready /\ Len(pps) < Cardinality(Labs)
             /\ LET x == Len(pps) K == CellsOf(lab, x)
                    flow == [c \in K |-> Cardinality(Upstream(fd, {c}))]
                    most == GMax({flow[c] : c \in K})
                IN \E c \in {d \in K : flow[d] = most} : pps' = Append(pps, [id |-> x, row |-> c[1], col |-> c[2]])
             /\ UNCHANGED <<k, fd, lab, nodes>>
Picked == Ready /\ Len(pps) = Cardinality(Labs)
CellOf(x) == <<NodeOf(pps, x).row, NodeOf(pps, x).col>>
Laid == {nodes[i].id : i \in {j \in DOMAIN nodes : ~nodes[j].junction}}
\* nodes on the way to the same bluespot as pour point x
Group(x) == {i \in DOMAIN nodes : nodes[i].to = Downstream(fd, lab, CellOf(x))}
IndexIn(s, c) == CHOOSE i \in DOMAIN s : s[i] = c
Has(s, c) == \E i \in DOMAIN s : s[i] = c
Node(id, c, geom, d, to, j) == [id |-> id, row |-> c[1], col |-> c[2], geom |-> geom, down |-> d, to |-> to,
                                junction |-> j, cap |-> 0, wshed |-> 0, bspot |-> IF j THEN NONE ELSE id]
\* first position (from 2, before the last) at which path p meets an existing stream
Meets(p, S) == {i \in 2..(Len(p) - 1) : \E n \in S : LET g == nodes[n].geom IN \E x \in 1..(Len(g) - 1) : g[x] = p[i] /\ (x > 1 \/ nodes[n].junction)}
FreshId == Len(pps) + Cardinality({i \in DOMAIN nodes : nodes[i].junction})
Lay(x) ==
  LET p == FullPath(fd, lab, CellOf(x))
      to == Downstream(fd, lab, CellOf(x))
      M == Meets(p, Group(x))
  IN IF M = {} THEN nodes' = Append(nodes, Node(x, CellOf(x), p, to, to, FALSE))
     ELSE LET i == GMin(M) c == p[i]
              there == {n \in Group(x) : nodes[n].junction /\ <<nodes[n].row, nodes[n].col>> = c}
          IN IF there # {}
             THEN nodes' = Append(nodes, Node(x, CellOf(x), SubSeq(p, 1, i), nodes[CHOOSE n \in there : TRUE].id, to, FALSE))
             ELSE LET n == CHOOSE n \in Group(x) : \E y \in 2..(Len(nodes[n].geom) - 1) : nodes[n].geom[y] = c
                      g == nodes[n].geom
                      y == IndexIn(g, c)
                      j == Node(FreshId, c, SubSeq(g, y, Len(g)), nodes[n].down, to, TRUE)
                  IN nodes' = [nodes EXCEPT ![n].geom = SubSeq(g, 1, y), ![n].down = j.id]
                                \o << j, Node(x, CellOf(x), SubSeq(p, 1, i), j.id, to, FALSE) >>
LayNext == /\ Picked
           /\ LET todo == IdsOf(pps) \ Laid IN
                /\ todo # {}
                /\ \E x \in (IF ANYORDER THEN todo ELSE {GMin(todo)}) : Lay(x)
           /\ UNCHANGED <<k, fd, lab, pps>>
Next == Choose \/ PickPours \/ LayNext
Spec == Init /\ [][Next]_vars
Done == Picked /\ Laid = IdsOf(pps)
AllDrain == Ready => DrainsOff(fd)
NetworkOk == Done => NetworkClauses(fd, lab, pps, nodes) = {}
StreamsOk == Done => StreamClauses(fd, lab, pps, nodes) = {}
\* the cell by cell form of the requirement used for large rasters
Own == MapGrid(G0, LAMBDA c : LET S == {i \in DOMAIN nodes : \E x \in 1..(Len(nodes[i].geom) - 1) : nodes[i].geom[x] = c}
                              IN IF S = {} THEN 0 ELSE GMin(S))
\* (in this design the raster may drain through its own bluespot again; the form for large rasters excludes that)
OnceThrough == \A i \in DOMAIN nodes : \A x \in 2..(Len(nodes[i].geom) - 1) : At(lab, nodes[i].geom[x]) = 0
StreamsOkW == Done /\ OnceThrough => StreamClausesW(fd, lab, pps, nodes, Own) = {}
\* pour points of the network without junctions: what C09 says about the next bluespot is what remains when junctions are skipped
SkipJunctions == Done => \A i \in DOMAIN nodes : ~nodes[i].junction => NextPour(nodes, nodes[i].down, Len(nodes) + 1) = nodes[i].to
=============================================================================
