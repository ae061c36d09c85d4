----------------------------- MODULE GenOptions -----------------------------
(* Histories of commands writing layers into one datasource with creation   *)
(* options.  The datasource is created by the first command, with its       *)
(* datasource options; later commands find it.  Every layer is created with *)
(* the layer options of its own command.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Formats, Commands, MAXLEN, MAXL, MAXD, MIXED
VARIABLES fmt, hist, ds, layers
vars == <<fmt, hist, ds, layers>>
LayerOpts(f) == CASE f = "GPKG" -> {<<"GEOMETRY_NAME", "shape">>, <<"FID", "nr">>, <<"IDENTIFIER", "some text">>, <<"DESCRIPTION", "more = text">>, <<"SPATIAL_INDEX", "NO">>}
                  [] f = "CSV" -> {<<"SEPARATOR", "SEMICOLON">>, <<"SEPARATOR", "TAB">>, <<"LINEFORMAT", "CRLF">>, <<"CREATE_CSVT", "YES">>, <<"GEOMETRY", "AS_WKT">>}
                  [] f = "GeoJSON" -> {<<"WRITE_NAME", "NO">>, <<"WRITE_BBOX", "YES">>, <<"DESCRIPTION", "some = text">>}
                  [] f = "ESRI Shapefile" -> {<<"ENCODING", "ISO-8859-1">>, <<"SPATIAL_INDEX", "YES">>, <<"DBF_DATE_LAST_UPDATE", "2001-02-03">>}
DsOpts(f) == IF f = "GPKG" THEN {<<"VERSION", "1.2">>, <<"ADD_GPKG_OGR_CONTENTS", "NO">>} ELSE {}
\* datasources which are not written to again: GeoJSON holds one layer, and OGR reopens a directory of
\* CSV files only if there is nothing else in it
Single(f) == f \in {"GeoJSON", "CSV"}
\* at most one value per option
Sets(S, n) == {x \in SUBSET S : Cardinality(x) <= n /\ \A a, b \in x : a[1] = b[1] => a = b}
Init == fmt \in Formats /\ hist = <<>> /\ ds = [new |-> TRUE, opts |-> {}] /\ layers = <<>>
Write(c, lo, do, at) ==
  /\ hist' = Append(hist, [cmd |-> c, lco |-> lo, dsco |-> do, attr |-> at])
  /\ ds' = IF ds.new THEN [new |-> FALSE, opts |-> do] ELSE ds
  /\ layers' = Append(layers, lo)
  /\ UNCHANGED fmt
Next == /\ Len(hist) < (IF Single(fmt) THEN 1 ELSE MAXLEN)
        /\ \E c \in Commands, lo \in Sets(LayerOpts(fmt), MAXL), do \in Sets(DsOpts(fmt), MAXD), at \in {"", "rain_m3"} :
             /\ at # "" => c \in {"initvolumes", "initvolumes_pr", "finalvolumes"}
             /\ MIXED \/ Cardinality(lo) + Cardinality(do) <= 1 \/ c \in {"network", "hyps"}
             /\ Write(c, lo, do, at)
Spec == Init /\ [][Next]_vars
\* what an option decides is decided once
Once == /\ hist # <<>> => ds.opts = hist[1].dsco
        /\ \A i \in DOMAIN hist : layers[i] = hist[i].lco
Emit == Len(hist) = (IF Single(fmt) THEN 1 ELSE MAXLEN) => PrintT(ToJson([fmt |-> fmt, history |-> hist]))
=============================================================================
