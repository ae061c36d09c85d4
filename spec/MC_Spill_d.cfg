INVARIANT Conserved
INVARIANT EndIsRequired
INVARIANT NotBefore
INVARIANT NoneAboveCapacity
INVARIANT ForestOk
INVARIANT MoreWater
INVARIANT Transparent
INVARIANT WitnessAgrees
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
N = 5
MAXCAP = 1
MAXINP = 1
ORDERED = TRUE
