SPECIFICATION Spec
INVARIANT EndOk
INVARIANT NotBefore
INVARIANT Sensitive
INVARIANT WitnessAgrees
INVARIANT WholeRegions
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 3
COLS = 3
DEPTHS = {0, 1}
ANYORDER = FALSE
TOKENS <- Toks
