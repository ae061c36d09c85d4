SPECIFICATION Spec
INVARIANT HistogramOk
INVARIANT CurveRises
INVARIANT LevelMeetsRequirements
INVARIANT NeverFalls
CHECK_DEADLOCK FALSE
CONSTANTS
CELLS = 4
ZMAX = 5
WIDTHS = {1, 2, 3, 4}
OFFSETS = {0, 1}
S = 12
