------------------------------ MODULE MC_Forest ------------------------------
(* Design of accumulated flow and of watershed growing over every flow      *)
(* direction raster of a small size that has no cycle: cells are settled    *)
(* one at a time in any order.  Every order ends in the same rasters, these *)
(* meet the requirements of C04 / C07, and nothing else does.               *)
EXTENDS Terrain, Labels
CONSTANTS ROWS, COLS,
          NLAB,        \* number of labels (0: no watersheds)
          ANYORDER, UNIQUE
VARIABLES k,           \* number of cells of the raster chosen so far
          fd, lab,
          acc,         \* 0: not settled yet
          wsh          \* U: not settled yet
vars == <<k, fd, lab, acc, wsh>>
U == 99      \* unassigned
Grids(S) == [1..ROWS -> [1..COLS -> S]]
Const(v) == [r \in 1..ROWS |-> [c \in 1..COLS |-> v]]
\* labels are the first of equivalent numberings: new labels appear in row order
N == ROWS * COLS
CellNo(i) == <<((i - 1) \div COLS) + 1, ((i - 1) % COLS) + 1>>
\* directions of cell c: to each neighbour, out of the raster (one of the codes), none
Codes(c) == {d \in 0..7 : InGrid(fd, ToDir(c, d))} \cup {GMin({d \in 0..7 : ~InGrid(fd, ToDir(c, d))} \cup {NODIR})} \cup {NODIR}
Put(g, c, v) == [g EXCEPT ![c[1]][c[2]] = v]
Init == k = 0 /\ fd = Const(NODIR) /\ lab = Const(0) /\ acc = Const(0) /\ wsh = Const(U)
Choose == /\ k < N
          /\ k' = k + 1
          /\ \E d \in Codes(CellNo(k')) : /\ fd' = Put(fd, CellNo(k'), d)
                                         /\ Recv(fd', CellNo(k')) \notin Upstream(fd, {CellNo(k')})
          \* new labels appear in row order
          /\ \E x \in 0..Min2(NLAB, 1 + GMax({At(lab, c) : c \in Cells(lab)})) :
                /\ lab' = Put(lab, CellNo(k'), x)
                /\ wsh' = Put(wsh, CellNo(k'), IF x = 0 THEN U ELSE x)
          /\ UNCHANGED acc
First(S) == CHOOSE c \in S : \A d \in S : c[1] < d[1] \/ (c[1] = d[1] /\ c[2] <= d[2])
Pick(S) == IF ANYORDER THEN S ELSE {First(S)}
Ready == {c \in Cells(fd) : At(acc, c) = 0 /\ \A d \in Donors(fd, c) : At(acc, d) # 0}
Accumulate == /\ k = N /\ Ready # {}
              /\ \E c \in Pick(Ready) : acc' = Put(acc, c, 1 + SumOver(Donors(fd, c), LAMBDA d : At(acc, d)))
              /\ UNCHANGED <<k, fd, lab, wsh>>
\* a cell without label joins the watershed of the cell it drains to
Open == IF NLAB = 0 THEN {} ELSE {c \in Cells(fd) : At(wsh, c) = U /\ Recv(fd, c) \notin {OFF, STOP} /\ At(wsh, Recv(fd, c)) # U}
Grow == /\ k = N /\ Ready = {} /\ Open # {}
        /\ \E c \in Pick(Open) : wsh' = Put(wsh, c, At(wsh, Recv(fd, c)))
        /\ UNCHANGED <<k, fd, lab, acc>>
Next == Choose \/ Accumulate \/ Grow
Spec == Init /\ [][Next]_vars
Done == k = N /\ Ready = {} /\ Open = {}
\* what is already settled is final
NoCycle == Acyclic(fd)
Partial == k = N => \A c \in Cells(fd) : At(acc, c) # 0 => At(acc, c) = Cardinality(Upstream(fd, {c}))
AccumEnd == k = N /\ Ready = {} => AccumClauses(fd, acc) = {}
NoneLeft == k = N /\ Ready = {} => \A c \in Cells(fd) : At(acc, c) # 0
LabRaster == MapGrid(lab, LAMBDA c : IF At(lab, c) = 0 THEN U ELSE At(lab, c))
WshedEnd == Done /\ NLAB > 0 => WshedClauses(fd, LabRaster, wsh, U) = {}
\* the watershed of a cell is the first label on its path
FirstOnPath == Done /\ NLAB > 0 =>
  \A c \in Cells(fd) : LET p == Path(fd, c) hits == {i \in DOMAIN p : At(lab, p[i]) # 0}
                       IN At(wsh, c) = IF hits = {} THEN U ELSE At(lab, p[GMin(hits)])
OnlyOne == k = N /\ NLAB = 0 /\ UNIQUE /\ acc = Const(0) => \A g \in Grids(1..(ROWS*COLS)) : AccumClauses(fd, g) = {} <=> \A c \in Cells(fd) : At(g, c) = Cardinality(Upstream(fd, {c}))
OnlyOneWshed == UNIQUE /\ NLAB > 0 /\ Done => \A g \in Grids((0..NLAB) \cup {U}) : WshedClauses(fd, LabRaster, g, U) = {} <=> g = wsh
\* the two forms of "water leaves the raster" agree
Hops == MapGrid(fd, LAMBDA c : Len(Path(fd, c)))
Witness == k = N /\ acc = Const(0) => (DrainsOff(fd) <=> DrainsOffW(fd, Hops))
\* the form for one long row says the same as the form for grids
ASSUME \A d \in {2, 6} : \A a, b \in [len : 1..3, first : 0..5, step : {-2, -1, 0, 1}] : \A runs \in {<<a>>, <<a, b>>} :
         LET v == ExpandRuns(runs) n == Len(v) row == <<[i \in 1..n |-> d]>>
         IN /\ AccumRunClauses(n, d, runs) = {} <=> AccumClauses(row, <<v>>) = {}
            /\ AccumRunClauses(n + 1, d, runs) # {}
=============================================================================
