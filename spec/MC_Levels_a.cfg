SPECIFICATION Spec
INVARIANT HistogramOk
INVARIANT CurveRises
INVARIANT LevelMeetsRequirements
INVARIANT NeverFalls
CHECK_DEADLOCK FALSE
CONSTANTS
CELLS = 3
ZMAX = 4
WIDTHS = {1, 2, 3}
OFFSETS = {0, 1}
S = 12
