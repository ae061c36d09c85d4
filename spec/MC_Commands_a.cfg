SPECIFICATION Spec
INVARIANT Quiet
INVARIANT SameEnd
INVARIANT Noticed
CHECK_DEADLOCK FALSE
CONSTANTS
PROP = "C20"
SCEN = {"A", "B"}
OTHERS = {"hyps2"}
BUGS = {"none", "cache", "count", "input", "drop", "extra", "clobber", "fallback", "halfway"}
EARLY = 1
NEWPROCESS = TRUE
