SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 6
COLS = 7
NLAB = 5
ANYORDER = FALSE
