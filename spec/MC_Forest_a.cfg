INVARIANT NoCycle
INVARIANT Partial
INVARIANT AccumEnd
INVARIANT NoneLeft
INVARIANT WshedEnd
INVARIANT FirstOnPath
INVARIANT OnlyOne
INVARIANT OnlyOneWshed
INVARIANT Witness
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
ROWS = 2
COLS = 2
NLAB = 0
ANYORDER = TRUE
UNIQUE = TRUE
