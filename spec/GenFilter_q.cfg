INIT Init
NEXT Next
INVARIANT GInv
CHECK_DEADLOCK FALSE
CONSTANTS MAXLEN = 4
PRUNE = TRUE
