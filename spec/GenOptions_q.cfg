SPECIFICATION Spec
INVARIANT Once
INVARIANT Emit
CONSTANT Formats = {"GPKG", "CSV", "GeoJSON", "ESRI Shapefile"}
CONSTANT Commands = {"pourpts", "pourpts_accum", "polys", "network", "hyps", "initvolumes", "initvolumes_pr", "finalvolumes", "finallevels"}
CONSTANT MAXLEN = 1
CONSTANT MAXL = 1
CONSTANT MAXD = 1
CONSTANT MIXED = FALSE
CHECK_DEADLOCK FALSE
