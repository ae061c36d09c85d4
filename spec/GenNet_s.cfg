SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
N = 9
MAXCAP = 4
MAXINP = 9
ORDERED = TRUE
