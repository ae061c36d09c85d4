------------------------------- MODULE Grid -------------------------------
(* Rasters: a grid is a sequence of rows, a cell is a pair <<row, col>>     *)
(* (1-based).  Flow directions are coded 0..7 clockwise from up, 8 is "no   *)
(* direction" (flow.FLOWDIR).                                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

NR(g) == Len(g)
NC(g) == Len(g[1])
Cells(g) == (1..NR(g)) \X (1..NC(g))
At(g, c) == g[c[1]][c[2]]
SameShape(g, h) == /\ Len(g) = Len(h)
                   /\ \A r \in 1..Len(g) : Len(g[r]) = Len(h[r])
InGrid(g, c) == c[1] \in 1..NR(g) /\ c[2] \in 1..NC(g)
OnEdge(g, c) == c[1] = 1 \/ c[2] = 1 \/ c[1] = NR(g) \/ c[2] = NC(g)
Border(g) == {c \in Cells(g) : OnEdge(g, c)}
Interior(g) == Cells(g) \ Border(g)

OrthD == {<<-1,0>>, <<0,1>>, <<1,0>>, <<0,-1>>}
DiagD == {<<-1,1>>, <<1,1>>, <<1,-1>>, <<-1,-1>>}
Orth(g, c) == {n \in {<<c[1]+d[1], c[2]+d[2]>> : d \in OrthD} : InGrid(g, n)}
Diag(g, c) == {n \in {<<c[1]+d[1], c[2]+d[2]>> : d \in DiagD} : InGrid(g, n)}
Nbr(g, c) == Orth(g, c) \cup Diag(g, c)

DeltaSeq == << <<-1,0>>, <<-1,1>>, <<0,1>>, <<1,1>>, <<1,0>>, <<1,-1>>, <<0,-1>>, <<-1,-1>> >>
NODIR == 8
Delta(d) == DeltaSeq[d+1]
OFF == <<0, 0>>     \* off the raster
STOP == <<0, 1>>    \* a cell without direction: water stays

\* The cell water goes to from c, or OFF or STOP
Recv(fd, c) == LET d == At(fd, c) IN
                 IF d \notin 0..7 THEN STOP
                 ELSE LET n == <<c[1] + Delta(d)[1], c[2] + Delta(d)[2]>> IN
                        IF InGrid(fd, n) THEN n ELSE OFF
Donors(fd, c) == {n \in Nbr(fd, c) : Recv(fd, n) = c}

RECURSIVE GrowUp(_, _, _)
\* cells reached against the flow from the cells in fr
GrowUp(fd, seen, fr) ==
  IF fr = {} THEN seen
  ELSE LET nx == UNION {Donors(fd, c) : c \in fr} \ seen
       IN GrowUp(fd, seen \cup nx, nx)
Upstream(fd, S) == GrowUp(fd, S, S)

ValidDirs(fd) == \A c \in Cells(fd) : At(fd, c) \in 0..8
Exits(fd) == {c \in Cells(fd) : Recv(fd, c) \in {OFF, STOP}}
Acyclic(fd) == Upstream(fd, Exits(fd)) = Cells(fd)
DrainsOff(fd) == Upstream(fd, {c \in Cells(fd) : Recv(fd, c) = OFF}) = Cells(fd)

RECURSIVE PathFrom(_, _, _)
\* flow path from c (inclusive), at most n cells
PathFrom(fd, c, n) == IF n = 0 \/ c \in {OFF, STOP} THEN <<>>
                      ELSE <<c>> \o PathFrom(fd, Recv(fd, c), n-1)
Path(fd, c) == PathFrom(fd, c, NR(fd) * NC(fd) + 1)

SumOver(S, Op(_)) == FoldLeft(LAMBDA a, x : a + Op(x), 0, SetToSeq(S))     \* linear in TLC, unlike MapThenSumSet
GMax(S) == CHOOSE x \in S : \A y \in S : y <= x
GMin(S) == CHOOSE x \in S : \A y \in S : y >= x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE FracDigits(_, _, _), FracRem(_, _, _)
FracRem(v, cap, k) == IF k = 0 THEN v % cap ELSE (10 * FracRem(v, cap, k - 1)) % cap
\* floor(10^k * v / cap), digit by digit (without large intermediate values)
FracDigits(v, cap, k) ==
  IF k = 0 THEN v \div cap
  ELSE 10 * FracDigits(v, cap, k - 1) + (10 * FracRem(v, cap, k - 1)) \div cap

MapGrid(g, Op(_)) == [r \in 1..NR(g) |-> [c \in 1..NC(g) |-> Op(<<r, c>>)]]
\* Position of id k in a sequence of records (0: none).  Any order; sorted without gaps is found at once.
Pos(s, k) == LET j == k - s[1].id + 1 IN
               IF Len(s) > 0 /\ j \in 1..Len(s) /\ s[j].id = k THEN j
               ELSE IF \E i \in 1..Len(s) : s[i].id = k THEN CHOOSE i \in 1..Len(s) : s[i].id = k ELSE 0
HasId(s, k) == Pos(s, k) # 0
IdsOf(s) == {s[i].id : i \in DOMAIN s}
NodeOf(s, k) == s[Pos(s, k)]

(* Witnesses.  Reachability clauses have a second form, linear in the size  *)
(* of the raster, which is judged when the recorder supplies a witness: a   *)
(* grid k of ranks which decreases along the path that has to exist.  A     *)
(* wrong witness can only make a step fail, never pass (MC_Witness checks   *)
(* that both forms agree when the best witness is supplied).                *)
DrainsOffW(fd, k) ==
  \A c \in Cells(fd) : LET r == Recv(fd, c) IN r = OFF \/ (r # STOP /\ At(k, r) < At(k, c))

\* seg: [cells, first, last]: all cells sorted by label; those of pps[i] are cells[first[i]..last[i]]
SegOk(lab, pps, seg) ==
  LET n == Len(seg.cells) S == DOMAIN pps IN
  /\ n = NR(lab) * NC(lab) /\ Len(seg.first) = Len(pps) /\ Len(seg.last) = Len(pps)
  /\ seg.first[1] = 1 /\ seg.last[Len(pps)] = n
  /\ \A i \in S : i > 1 => seg.first[i] = seg.last[i-1] + 1 /\ pps[i].id > pps[i-1].id
  /\ \A i \in S : \A j \in seg.first[i]..seg.last[i] :
        /\ At(lab, seg.cells[j]) = pps[i].id
        /\ j > seg.first[i] => LET a == seg.cells[j-1] b == seg.cells[j] IN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* the cells with label k (none if there is no such label)
SegCells(pps, seg, k) == LET i == Pos(pps, k) IN IF i = 0 THEN {} ELSE {seg.cells[j] : j \in seg.first[i]..seg.last[i]}

\* A clause: the set of its name if it does not hold
Cl(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
