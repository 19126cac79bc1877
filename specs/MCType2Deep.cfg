CONSTANTS
  MaxN = 15
  Values = 4
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Bounded
INVARIANT LastPoint
INVARIANT FirstIsMove
INVARIANT StemsEven
INVARIANT Terminates
INVARIANT InRangeAll
INVARIANT WidthDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
