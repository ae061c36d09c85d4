SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 4
COLS = 5
NLAB = 3
ANYORDER = FALSE
UNIQUE = FALSE
DRAIN = TRUE
