CONSTANTS
  Tags = {1, 2, 3, 4, 5, 6}
  Lens = {0, 1, 2, 3, 4, 5, 16}
  MaxN = 4
INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Sensitive
INVARIANT NoHeadSensitive
INVARIANT Truncation
INVARIANT Emit
CHECK_DEADLOCK FALSE
