----------------------------- MODULE MC_Output -----------------------------
(* Commands writing layers into one datasource, by a system that behaves    *)
(* (bug "none") or has one of a list of faults in passing on what it was    *)
(* asked for.  Checked: the clauses of C23 never object to the system that  *)
(* behaves, and object to a faulty one in the very step in which what it    *)
(* leaves differs from what the one that behaves leaves.                    *)
EXTENDS Output, TLC
CONSTANTS BUGS, MAXLEN
VARIABLES ds,        \* what the system has left
          good,      \* what the one that behaves would have left in the last step, from the same datasource
          n, bug, caught
vars == <<ds, good, n, bug, caught>>
DDef == << <<"VERSION", "1.4">> >>
LDef(two) == IF two THEN << <<"FID", "fid">>, <<"GEOM", "geom">> >> ELSE << <<"FID", "fid">> >>
LOpts == SUBSET {<<"FID", "nr">>, <<"GEOM", "shape">>}
DOpts == SUBSET {<<"VERSION", "1.2">>}
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => s[a] # s[b]
Nothing == [new |-> TRUE, fmt |-> "", traits |-> <<>>, layers |-> <<>>]
Lyr(name, two, lo, at) == [name |-> name, traits |-> With(LDef(two), lo), attrs |-> Renamed(<<"id", "inputv">>, "inputv", at), digest |-> IF two THEN "d2" ELSE "d1"]
\* one command: layers x.1 (and x.2), options, attribute name; what is left from ds0
Left(ds0, b, x, two, lo, do, at) ==
  LET lo2 == IF b = "drop_lco" THEN <<>> ELSE IF b = "lco_is_dsco" THEN do ELSE lo
      lo3 == IF b = "second_without_lco" THEN <<>> ELSE lo2
      do2 == IF b = "drop_dsco" THEN <<>> ELSE IF b = "lco_is_dsco" THEN lo ELSE do
      at2 == IF b = "fixed_attribute" THEN "inputv" ELSE at
      nm == IF b = "fixed_name" THEN "out" ELSE x
      new == <<Lyr(nm \o "1", FALSE, lo2, at2)>> \o (IF two THEN <<Lyr(nm \o "2", TRUE, lo3, at2)>> ELSE <<>>)
      new2 == IF b = "features_by_option" /\ lo # <<>> THEN [i \in DOMAIN new |-> [new[i] EXCEPT !.digest = "other"]] ELSE new
      old == IF b = "recreate" THEN <<>>
             ELSE IF b = "apply_to_all" THEN [i \in DOMAIN ds0.layers |-> [ds0.layers[i] EXCEPT !.traits = With(@, lo)]]
             ELSE SelectSeq(ds0.layers, LAMBDA l : \A i \in DOMAIN new2 : l.name # new2[i].name)
  IN [new |-> FALSE, fmt |-> IF b = "fixed_format" THEN "GPKG" ELSE "SHP",
      traits |-> IF ds0.new \/ b = "recreate" \/ b = "late_dsco" THEN With(DDef, do2) ELSE ds0.traits, layers |-> old \o new2]
Init == ds = Nothing /\ good = Nothing /\ n = 0 /\ bug \in BUGS /\ caught = {}
Write == /\ n < MAXLEN /\ n' = n + 1 /\ bug' = bug
         /\ \E two \in BOOLEAN, lo \in LOpts, do \in DOpts, at \in {"inputv", "rain"} :
              LET L == SeqOf(lo) D == SeqOf(do) x == ToString(n + 1) \o "_"
                  wants == <<[name |-> x \o "1", default |-> LDef(FALSE), attrs |-> <<"id", "inputv">>, digest |-> "d1"]>>
                           \o (IF two THEN <<[name |-> x \o "2", default |-> LDef(TRUE), attrs |-> <<"id", "inputv">>, digest |-> "d2"]>> ELSE <<>>)
              IN /\ ds' = Left(ds, bug, x, two, L, D, at)
                 /\ good' = Left(ds, "none", x, two, L, D, at)
                 /\ caught' = OutputFailing(ds, ds', "SHP", DDef, D, L, "inputv", at, wants)
Next == Write
Spec == Init /\ [][Next]_vars
Same(a, b) == /\ a.fmt = b.fmt /\ a.traits = b.traits /\ LayerNames(a.layers) = LayerNames(b.layers)
              /\ \A k \in LayerNames(a.layers) : Named(a.layers, k) = Named(b.layers, k)
Quiet == bug = "none" => caught = {}
Noticed == caught = {} <=> Same(ds, good)
=============================================================================
