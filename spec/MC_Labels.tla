------------------------------ MODULE MC_Labels ------------------------------
(* Design of bluespot labelling: every wet cell starts with a number of its *)
(* own, neighbours take over the smaller number in any order.  The end      *)
(* meets the requirements of C05, whatever the order; anything a single     *)
(* cell away from it does not.  The filter keeps or drops regions as a      *)
(* whole.                                                                   *)
EXTENDS Labels
CONSTANTS ROWS, COLS, DEPTHS, ANYORDER, TOKENS
VARIABLES k, depth, num
vars == <<k, depth, num>>
Toks == << <<"id", "volume">>, <<"cmp", ">">>, <<"num", 2, 1>>, <<"or">>, <<"id", "area">>, <<"cmp", "==">>, <<"num", 1, 1>> >>
N == ROWS * COLS
CellNo(i) == <<((i - 1) \div COLS) + 1, ((i - 1) % COLS) + 1>>
NoOf(c) == (c[1] - 1) * COLS + c[2]
Put(g, c, v) == [g EXCEPT ![c[1]][c[2]] = v]
G0 == [r \in 1..ROWS |-> [c \in 1..COLS |-> 0]]
Init == k = 0 /\ depth = G0 /\ num = G0
Choose == /\ k < N /\ k' = k + 1
          /\ \E d \in DEPTHS : /\ depth' = Put(depth, CellNo(k'), d)
                               /\ num' = Put(num, CellNo(k'), IF d = 0 THEN 0 ELSE k')
CanTake == {c \in Wet(depth) : \E m \in Nbr(depth, c) \cap Wet(depth) : At(num, m) < At(num, c)}
First(S) == CHOOSE c \in S : \A d \in S : c[1] < d[1] \/ (c[1] = d[1] /\ c[2] <= d[2])
Take == /\ k = N /\ CanTake # {}
        /\ \E c \in (IF ANYORDER THEN CanTake ELSE {First(CanTake)}) : \E m \in Nbr(depth, c) \cap Wet(depth) :
              At(num, m) < At(num, c) /\ num' = Put(num, c, At(num, m))
        /\ UNCHANGED <<k, depth>>
Next == Choose \/ Take
Spec == Init /\ [][Next]_vars
Done == k = N /\ CanTake = {}
\* numbers without gaps
Compact(g) == LET used == Labels(g) IN TLCEval(MapGrid(g, LAMBDA c : IF At(g, c) = 0 THEN 0 ELSE Cardinality({x \in used : x <= At(g, c)})))
Lab == Compact(num)
EndOk == Done => LET L == Lab IN LabelClauses(depth, Wet(depth), L, "X") = {}
NotBefore == k = N /\ ~Done => LabelClauses(depth, Wet(depth), Lab, "X") # {}
\* any other value in any one cell is noticed (unless it merely renames a region of one cell)
Sensitive == Done => LET L == Lab S == Wet(depth) n == Cardinality(Labels(L)) IN
               \A c \in Cells(depth) : \A v \in 0..(n + 1) : v # At(L, c) => LabelClauses(depth, S, Put(L, c, v), "X") # {}
\* witness form: hops to the lowest numbered cell of the region
RECURSIVE Hops(_, _, _)
Hops(g, fr, n) == IF n > N THEN g
                  ELSE Hops(TLCEval(MapGrid(g, LAMBDA c : IF At(depth, c) # 0 /\ At(g, c) = N + 1 /\ \E m \in Nbr(g, c) : At(depth, m) # 0 /\ At(g, m) = n - 1 THEN n ELSE At(g, c))), fr, n + 1)
Rank == Hops(MapGrid(depth, LAMBDA c : IF At(num, c) = NoOf(c) /\ At(depth, c) # 0 THEN 0 ELSE N + 1), {}, 1)
WitnessAgrees == Done => LabelClausesW(depth, Lab, Rank, "X") = {}
\* filters act on whole regions, and a filter which is always true changes nothing
WholeRegions == Done => LET S == Kept(depth, TOKENS, 1, <<1, 1>>) IN
                  /\ \A c, d \in Wet(depth) : At(num, c) = At(num, d) => (c \in S <=> d \in S)
                  /\ \A c \in S : Keeps(TOKENS, StatsOf(depth, {d \in Wet(depth) : At(num, d) = At(num, c)}, 1, <<1, 1>>))
=============================================================================
