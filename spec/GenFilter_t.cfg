INIT Init
NEXT Next
INVARIANT GInv
CHECK_DEADLOCK FALSE
CONSTANTS MAXLEN = 6
PRUNE = TRUE
