SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
MAXCAP = 1
MAXINP = 1
ORDERED = TRUE
