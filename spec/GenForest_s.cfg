SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 5
COLS = 4
NLAB = 0
ANYORDER = FALSE
UNIQUE = FALSE
DRAIN = FALSE
