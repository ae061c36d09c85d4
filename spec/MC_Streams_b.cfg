INVARIANT AllDrain
INVARIANT NetworkOk
INVARIANT StreamsOk
INVARIANT StreamsOkW
INVARIANT SkipJunctions
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
ROWS = 4
COLS = 4
NLAB = 4
ANYORDER = TRUE
