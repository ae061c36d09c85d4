------------------------------ MODULE MC_Polys ------------------------------
(* The even-odd reading of rings and the requirement on polygons (C21), for *)
(* every small raster of ids: polygons whose rings are the outlines of the  *)
(* regions meet it; any polygon set with one cell too many or too few, a    *)
(* wrong id, a region split in two or joined with another does not.         *)
EXTENDS Levels, TLC
CONSTANTS ROWS, COLS, IDS, U
VARIABLES k, g
vars == <<k, g>>
N == ROWS * COLS
CellNo(i) == <<((i - 1) \div COLS) + 1, ((i - 1) % COLS) + 1>>
Put(h, c, v) == [h EXCEPT ![c[1]][c[2]] = v]
Init == k = 0 /\ g = [r \in 1..ROWS |-> [c \in 1..COLS |-> U]]
Next == k < N /\ k' = k + 1 /\ \E v \in IDS : g' = Put(g, CellNo(k'), v)
Spec == Init /\ [][Next]_vars
\* cells as rings of their own
Square(c) == LET x == c[2] y == c[1] IN << <<x-1, y-1>>, <<x, y-1>>, <<x, y>>, <<x-1, y>>, <<x-1, y-1>> >>
Feat(K, v) == [id |-> v, rings |-> SetToSeq({Square(c) : c \in K})]
\* outline with holes of a rectangle of cells less some of them: outer ring, then a ring per missing cell
Regions == EqRegions(g, {c \in Cells(g) : At(g, c) # U})
Feats == SetToSeq({Feat(K, At(g, CHOOSE c \in K : TRUE)) : K \in Regions})
Full == k = N
Meets == Full => PolyClauses(g, U, Feats) = {}
RowsOf(K) == {c[1] : c \in K}
ColsOf(K) == {c[2] : c \in K}
Holes == Full => \A K \in Regions :
   LET r1 == GMin(RowsOf(K)) r2 == GMax(RowsOf(K)) c1 == GMin(ColsOf(K)) c2 == GMax(ColsOf(K))
       box == (r1..r2) \X (c1..c2)
       rings == << << <<c1-1, r1-1>>, <<c2, r1-1>>, <<c2, r2>>, <<c1-1, r2>>, <<c1-1, r1-1>> >> >> \o SetToSeq({Square(c) : c \in box \ K})
   IN CellsIn(g, rings) = K
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Sensitive == Full => \A i \in DOMAIN Feats :
   /\ PolyClauses(g, U, Without(Feats, i)) # {}
   /\ PolyClauses(g, U, Append(Feats, Feats[i])) # {}
   /\ PolyClauses(g, U, [Feats EXCEPT ![i].id = @ + 1]) # {}
   /\ \A j \in DOMAIN Feats[i].rings : PolyClauses(g, U, [Feats EXCEPT ![i].rings = Without(@, j)]) # {}
   /\ \A c \in Cells(g) \ CellsIn(g, Feats[i].rings) : PolyClauses(g, U, [Feats EXCEPT ![i].rings = Append(@, Square(c))]) # {}
   /\ \A j \in DOMAIN Feats : j # i => PolyClauses(g, U, Without([Feats EXCEPT ![i].rings = @ \o Feats[j].rings], j)) # {}
\* the same with witnesses: regions as rows of rectangles
RECURSIVE StepsTo(_, _, _, _)
StepsTo(c, seen, fr, n) == IF c \in fr \/ fr = {} THEN n
  ELSE LET nx == {m \in UNION {Nbr(g, x) : x \in fr} : At(g, m) = At(g, c)} \ seen IN StepsTo(c, seen \cup nx, nx, n + 1)
Root(K) == CHOOSE c \in K : \A m \in K : c[1] < m[1] \/ (c[1] = m[1] /\ c[2] <= m[2])
Box(r, a, b) == << <<a-1, r-1>>, <<b, r-1>>, <<b, r>>, <<a-1, r>>, <<a-1, r-1>> >>
Runs(K) == {q \in RowsOf(K) \X ColsOf(K) \X ColsOf(K) :
              /\ q[2] <= q[3] /\ \A x \in q[2]..q[3] : <<q[1], x>> \in K
              /\ <<q[1], q[2]-1>> \notin K /\ <<q[1], q[3]+1>> \notin K}
WitnessAgrees == Full =>
  LET rs == TLCEval(SetToSeq(Regions))
      reg == TLCEval([r \in 1..ROWS |-> [c \in 1..COLS |-> IF g[r][c] = U THEN 0 ELSE CHOOSE i \in DOMAIN rs : <<r, c>> \in rs[i]]])
      steps == TLCEval([r \in 1..ROWS |-> [c \in 1..COLS |-> IF reg[r][c] = 0 THEN 0 ELSE LET q == Root(rs[reg[r][c]]) IN StepsTo(<<r, c>>, {q}, {q}, 0)]])
      fw == TLCEval([i \in DOMAIN rs |-> [id |-> At(g, CHOOSE c \in rs[i] : TRUE), reg |-> i, rings |-> SetToSeq({Box(q[1], q[2], q[3]) : q \in Runs(rs[i])})]])
      W(fs) == PolyClausesW(g, U, fs, reg, steps)
  IN /\ W(fw) = {} /\ PolyClauses(g, U, fw) = {}
     /\ \A i \in DOMAIN fw :
          /\ W(Without(fw, i)) # {}
          /\ W(Append(fw, fw[i])) # {}
          /\ W([fw EXCEPT ![i].id = @ + 1]) # {}
          /\ \A j \in DOMAIN fw[i].rings : W([fw EXCEPT ![i].rings = Without(@, j)]) # {}
          /\ \A c \in Cells(g) \ rs[i] : W([fw EXCEPT ![i].rings = Append(@, Square(c))]) # {}
          /\ \A j \in DOMAIN fw : j # i => W(Without([fw EXCEPT ![i].rings = @ \o fw[j].rings], j)) # {}
     \* a wrong witness is never accepted
     /\ \A c \in Cells(g) : \A v \in 0..Len(rs) : v # reg[c[1]][c[2]] => PolyClausesW(g, U, fw, Put(reg, c, v), steps) # {}
=============================================================================
