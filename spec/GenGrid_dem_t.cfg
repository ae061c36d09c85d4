SPECIFICATION Spec
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
MINROWS = 1
MINCOLS = 1
MAXROWS = 3
MAXCOLS = 4
MAXCELLS = 12
VALUES = {0, 1}
KEY = "dem"
