SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 2
COLS = 3
NLAB = 0
ANYORDER = FALSE
UNIQUE = FALSE
DRAIN = FALSE
