CONSTANTS
  Depth = 3
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
