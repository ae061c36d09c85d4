SPECIFICATION Spec
INVARIANT LastCall
INVARIANT Emit
CONSTANT Max = 4
CHECK_DEADLOCK FALSE
