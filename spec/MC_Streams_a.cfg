INVARIANT AllDrain
INVARIANT NetworkOk
INVARIANT StreamsOk
INVARIANT StreamsOkW
INVARIANT SkipJunctions
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
ROWS = 3
COLS = 5
NLAB = 3
ANYORDER = TRUE
