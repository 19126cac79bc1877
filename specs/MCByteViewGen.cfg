CONSTANTS
  Depth = 2
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
