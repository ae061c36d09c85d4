SPECIFICATION Spec
INVARIANT Meets
INVARIANT Holes
INVARIANT Sensitive
INVARIANT WitnessAgrees
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 2
COLS = 3
IDS = {0, 1, 2}
U = 0
