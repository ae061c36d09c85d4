SPECIFICATION Spec
INVARIANT Once
INVARIANT Emit
CONSTANT Formats = {"GPKG", "CSV", "GeoJSON", "ESRI Shapefile"}
CONSTANT Commands = {"pourpts", "pourpts_accum", "polys", "network", "hyps", "initvolumes", "initvolumes_pr", "finalvolumes", "finallevels"}
CONSTANT MAXLEN = 4
CONSTANT MAXL = 3
CONSTANT MAXD = 2
CONSTANT MIXED = TRUE
CHECK_DEADLOCK FALSE
