INVARIANT Conserved
INVARIANT EndIsRequired
INVARIANT NotBefore
INVARIANT NoneAboveCapacity
INVARIANT ForestOk
INVARIANT MoreWater
INVARIANT Transparent
INVARIANT WitnessAgrees
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
N = 3
MAXCAP = 2
MAXINP = 2
ORDERED = TRUE
