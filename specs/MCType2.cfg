CONSTANTS
  MaxN = 14
  Values = 1
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Bounded
INVARIANT LastPoint
INVARIANT FirstIsMove
INVARIANT StemsEven
INVARIANT Terminates
INVARIANT InRangeAll
INVARIANT WidthDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
