CONSTANTS
  Tags = {1, 2, 3, 5, 6}
  Lens = {0, 1, 3, 4}
  MaxN = 3
INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Sensitive
INVARIANT NoHeadSensitive
INVARIANT Truncation
INVARIANT Emit
CHECK_DEADLOCK FALSE
