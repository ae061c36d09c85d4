SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 2
COLS = 2
NLAB = 3
ANYORDER = FALSE
UNIQUE = FALSE
DRAIN = TRUE
