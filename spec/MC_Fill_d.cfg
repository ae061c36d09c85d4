SPECIFICATION LiveSpec
CONSTANTS ROWS = 3
COLS = 4
ZMAX = 2
SHORT = 1
DIAG = 2
ANYORDER = FALSE
UNIQUE = FALSE
INVARIANT NeverTooLow
INVARIANT SameEnd
INVARIANT EndMeetsRequirements
INVARIANT NotBefore
INVARIANT OnlyOne
INVARIANT NearFilled
PROPERTY Terminates
CHECK_DEADLOCK FALSE
