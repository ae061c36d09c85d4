SPECIFICATION Spec
INVARIANT EndOk
INVARIANT NotBefore
INVARIANT Sensitive
INVARIANT WitnessAgrees
INVARIANT WholeRegions
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 2
COLS = 3
DEPTHS = {0, 1, 2}
ANYORDER = FALSE
TOKENS <- Toks
