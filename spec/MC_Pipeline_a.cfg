SPECIFICATION Spec
INVARIANT NoObjection
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
CONSTANTS ROWS = 3
COLS = 4
ZMAX = 1
FINE = 4
RAIN = 1
MORE = 2
PROP = "ALL"
