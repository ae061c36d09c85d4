SPECIFICATION LiveSpec
CONSTANTS ROWS = 4
COLS = 4
ZMAX = 1
SHORT = 0
DIAG = 0
ANYORDER = FALSE
UNIQUE = FALSE
INVARIANT NeverTooLow
INVARIANT SameEnd
INVARIANT EndMeetsRequirements
INVARIANT NotBefore
INVARIANT OnlyOne
INVARIANT NearFilled
PROPERTY Terminates
CHECK_DEADLOCK FALSE
