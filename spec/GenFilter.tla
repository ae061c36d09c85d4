----------------------------- MODULE GenFilter -----------------------------
(* All filter token sequences up to MAXLEN over a small alphabet.  With     *)
(* PRUNE only sequences which are still the beginning of a well formed one  *)
(* are extended (then one arbitrary token may follow).                      *)
EXTENDS Labels, Json
CONSTANTS MAXLEN, PRUNE
VARIABLES ts, dead
Alpha == { <<"id", "area">>, <<"id", "maxdepth">>, <<"id", "volume">>, <<"num", 3, 2>>, <<"cmp", "<">>, <<"cmp", ">=">>,
           <<"and">>, <<"or">>, <<"(">>, <<")">>, <<"bad">> }
\* shortest completions which show that a prefix can become well formed
Tails == { <<>>, << <<"num", 1, 1>> >>, << <<"cmp", "<">>, <<"num", 1, 1>> >>,
           << <<"num", 1, 1>>, <<"cmp", "<">>, <<"num", 1, 1>> >> }
Close(n) == [i \in 1..n |-> <<")">>]
Viable(s) == \E t \in Tails : \E n \in 0..2 : WellFormed(s \o t \o Close(n)) \/ WellFormed(s \o Close(n) \o << <<"cmp", "<">>, <<"num", 1, 1>> >>)
Init == ts = <<>> /\ dead = FALSE
Next == /\ Len(ts) < MAXLEN
        /\ ~dead
        /\ \E t \in Alpha : ts' = Append(ts, t)
        /\ dead' = (PRUNE /\ ~Viable(ts'))
        /\ PrintT(ToJson([tokens |-> ts', ok |-> WellFormed(ts')]))
\* sanity of the grammar
GInv == /\ (WellFormed(ts) => Viable(ts))
        /\ (WellFormed(ts) => ~WellFormed(ts \o << <<"and">> >>))
        /\ (WellFormed(ts) /\ ts # <<>> => WellFormed(<< <<"(">> >> \o ts \o << <<")">> >>))
=============================================================================
