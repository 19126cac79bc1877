CONSTANTS
  MaxLen = 6
  EncLen = 4
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT Emit
CHECK_DEADLOCK FALSE
