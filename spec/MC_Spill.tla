------------------------------ MODULE MC_Spill ------------------------------
(* Design of fill and spill on a network without cycles.                    *)
(* Water is moved in lumps: any node that holds more than it can keeps what *)
(* it can hold and hands any part of the rest on, in any order.  However    *)
(* the water is moved, the end state is the one of C12; nothing is lost on  *)
(* the way; and what arrives where does not depend on the order in which    *)
(* nodes are looked at.  The implementation moves all of the surplus once   *)
(* per node, in an order in which upstream nodes come first; the order      *)
(* among these is irrelevant (ORDERED), a wrong order is not.               *)
EXTENDS Net
CONSTANTS N, MAXCAP, MAXINP, ORDERED
VARIABLES k,                      \* nodes chosen so far
          down, cap, inp,         \* the network and its input
          held, passed,           \* water in each node now, water it has handed on
          settled                 \* (ORDERED) nodes already processed
vars == <<k, down, cap, inp, held, passed, settled>>
Ids0 == 1..N
Zero == [i \in Ids0 |-> 0]
Init == k = 0 /\ down = [i \in Ids0 |-> NONE] /\ cap = Zero /\ inp = Zero /\ held = Zero /\ passed = Zero /\ settled = {}
\* nodes of a forest can be numbered such that water runs to smaller numbers
Choose == /\ k < N /\ k' = k + 1
          /\ \E d \in {NONE} \cup (1..k) : down' = [down EXCEPT ![k'] = d]
          /\ \E c \in 0..MAXCAP : cap' = [cap EXCEPT ![k'] = c]
          /\ \E w \in 0..MAXINP : inp' = [inp EXCEPT ![k'] = w] /\ held' = [held EXCEPT ![k'] = w]
          /\ UNCHANGED <<passed, settled>>
Surplus(i) == Max2(0, held[i] - cap[i])
Send(i, x) == /\ held' = [j \in Ids0 |-> IF j = i THEN held[i] - x ELSE IF j = down[i] THEN held[j] + x ELSE held[j]]
              /\ passed' = [passed EXCEPT ![i] = @ + x]
Move == /\ ~ORDERED /\ k = N
        /\ \E i \in Ids0 : \E x \in 1..Surplus(i) : Send(i, x)
        /\ UNCHANGED <<k, down, cap, inp, settled>>
Process == /\ ORDERED /\ k = N
           /\ \E i \in Ids0 \ settled : /\ \A j \in Ids0 : down[j] = i => j \in settled
                                        /\ Send(i, Surplus(i))
                                        /\ settled' = settled \cup {i}
           /\ UNCHANGED <<k, down, cap, inp>>
Next == Choose \/ Move \/ Process
Spec == Init /\ [][Next]_vars
Nodes == [i \in Ids0 |-> [id |-> i, down |-> down[i], cap |-> cap[i], inp |-> inp[i]]]
Pct(v, c) == IF c = 0 THEN NONE ELSE FracDigits(v, c, 4)
Fin == [i \in Ids0 |-> [id |-> i, v |-> held[i], spill |-> passed[i], inp |-> inp[i], pct |-> Pct(held[i], cap[i])]]
Total(s) == SumOver(Ids0, LAMBDA i : s[i])
Done == k = N /\ (IF ORDERED THEN settled = Ids0 ELSE \A i \in Ids0 : Surplus(i) = 0)
Conserved == Total(inp) = Total(held) + SumOver({i \in Ids0 : down[i] = NONE}, LAMBDA i : passed[i])
EndIsRequired == Done => SpillClauses(Nodes, Fin, 4) = {}
\* in the middle of things the requirements do not hold yet
NotBefore == k = N /\ ~Done /\ ~ORDERED => SpillClauses(Nodes, Fin, 4) # {}
NoneAboveCapacity == Done => \A i \in Ids0 : held[i] <= cap[i]
ForestOk == k = N => \A i \in Ids0 : ToRoot(Nodes, i, N + 1)

\* the end state as a function of the network: used to compare different inputs
RECURSIVE In(_, _)
In(w, i) == w[i] + SumOver({j \in Ids0 : down[j] = i}, LAMBDA j : Max2(0, In(w, j) - cap[j]))
V(w, i) == Min2(In(w, i), cap[i])
S(w, i) == Max2(0, In(w, i) - cap[i])
\* more water somewhere never lowers a volume or a spill (C22), and scaling water and capacities scales the result
MoreWater == Done => \A j \in Ids0 : LET w == [inp EXCEPT ![j] = @ + 1] IN
                \A i \in Ids0 : V(w, i) >= held[i] /\ S(w, i) >= passed[i]
\* a node without capacity and input is transparent: junctions do not change anything (C10)
Transparent == Done => \A j \in Ids0 : cap[j] = 0 /\ inp[j] = 0 =>
                 passed[j] = SumOver({x \in Ids0 : down[x] = j}, LAMBDA x : passed[x])
\* no other state of the same network meets the requirements
OnlyOne == Done => \A h \in [Ids0 -> 0..MAXCAP] : \A p \in [Ids0 -> 0..(N * MAXINP)] :
             SpillClauses(Nodes, [i \in Ids0 |-> [id |-> i, v |-> h[i], spill |-> p[i], inp |-> inp[i], pct |-> Pct(h[i], cap[i])]], 4) = {}
               <=> h = held /\ p = passed
WitnessAgrees == Done => SpillClausesW(Nodes, Fin, 4, [i \in Ids0 |-> SetToSortSeq(UpOf(Nodes, i), LAMBDA a, b : a < b)]) = {}
=============================================================================
