CONSTANTS
  MaxLen = 3
  Mod = 61
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT NoDeadEnd
INVARIANT Emit
CHECK_DEADLOCK FALSE
