SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
CONSTANT Scenarios = {"A", "B"}
CONSTANT Others = {}
CONSTANT Stages = 3
CONSTANT MAXLEN = 6
CONSTANT EARLY = 0
CHECK_DEADLOCK FALSE
