SPECIFICATION Spec
INVARIANT LastCall
INVARIANT Emit
CONSTANT Max = 6
CHECK_DEADLOCK FALSE
