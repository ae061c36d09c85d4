SPECIFICATION Spec
INVARIANT Meets
INVARIANT Holes
INVARIANT Sensitive
INVARIANT WitnessAgrees
CHECK_DEADLOCK FALSE
CONSTANTS
ROWS = 4
COLS = 4
IDS = {0, 1}
U = 0
