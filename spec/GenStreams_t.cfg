SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 3
COLS = 5
NLAB = 3
ANYORDER = FALSE
