SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
CONSTANT Scenarios = {"A", "B"}
CONSTANT Others = {}
CONSTANT Stages = 4
CONSTANT MAXLEN = 8
CONSTANT EARLY = 0
CHECK_DEADLOCK FALSE
