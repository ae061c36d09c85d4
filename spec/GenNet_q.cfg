SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
N = 3
MAXCAP = 1
MAXINP = 2
ORDERED = TRUE
