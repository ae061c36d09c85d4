INVARIANT Conserved
INVARIANT EndIsRequired
INVARIANT NotBefore
INVARIANT NoneAboveCapacity
INVARIANT ForestOk
INVARIANT MoreWater
INVARIANT Transparent
INVARIANT WitnessAgrees
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS
N = 2
MAXCAP = 2
MAXINP = 3
ORDERED = TRUE
INVARIANT OnlyOne
