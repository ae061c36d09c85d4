SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 3
COLS = 4
NLAB = 2
ANYORDER = FALSE
