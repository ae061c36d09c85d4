SPECIFICATION Spec
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
MINROWS = 3
MINCOLS = 3
MAXROWS = 7
MAXCOLS = 7
MAXCELLS = 49
VALUES = {0, 1}
KEY = "wet"
