CONSTANTS
  MaxLen = 3
  Mod = 3
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT NoDeadEnd
INVARIANT Emit
CHECK_DEADLOCK FALSE
