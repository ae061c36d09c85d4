INVARIANT AllDrain
INVARIANT NetworkOk
INVARIANT StreamsOk
INVARIANT StreamsOkW
INVARIANT SkipJunctions
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
ROWS = 6
COLS = 6
NLAB = 5
ANYORDER = TRUE
