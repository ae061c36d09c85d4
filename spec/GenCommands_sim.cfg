SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
CONSTANT Scenarios = {"A", "B", "A2", "P", "Z"}
CONSTANT Others = {"hyps2", "network2", "pourpts2", "bspots2", "filled2", "polys2", "wsheds2", "complete2", "accum2", "depths2", "flowdir2"}
CONSTANT Stages = 5
CONSTANT MAXLEN = 18
CONSTANT EARLY = 3
CHECK_DEADLOCK FALSE
