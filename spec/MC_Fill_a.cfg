SPECIFICATION LiveSpec
CONSTANTS ROWS = 3
COLS = 4
ZMAX = 1
SHORT = 0
DIAG = 0
ANYORDER = TRUE
UNIQUE = TRUE
INVARIANT NeverTooLow
INVARIANT SameEnd
INVARIANT EndMeetsRequirements
INVARIANT NotBefore
INVARIANT OnlyOne
INVARIANT NearFilled
PROPERTY Terminates
CHECK_DEADLOCK FALSE
