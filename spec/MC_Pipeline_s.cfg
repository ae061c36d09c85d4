SPECIFICATION Spec
INVARIANT NoObjection
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
CONSTANTS ROWS = 4
COLS = 6
ZMAX = 2
FINE = 4
RAIN = 1
MORE = 2
PROP = "ALL"
