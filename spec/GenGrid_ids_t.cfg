SPECIFICATION Spec
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
MINROWS = 1
MINCOLS = 1
MAXROWS = 3
MAXCOLS = 4
MAXCELLS = 6
VALUES = {0, 1, 2}
KEY = "ids"
