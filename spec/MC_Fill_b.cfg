SPECIFICATION LiveSpec
CONSTANTS ROWS = 3
COLS = 4
ZMAX = 1
SHORT = 2
DIAG = 3
ANYORDER = TRUE
UNIQUE = FALSE
INVARIANT NeverTooLow
INVARIANT SameEnd
INVARIANT EndMeetsRequirements
INVARIANT NotBefore
INVARIANT OnlyOne
INVARIANT NearFilled
PROPERTY Terminates
CHECK_DEADLOCK FALSE
