CONSTANTS
  MaxLen = 8
  EncLen = 5
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT Emit
CHECK_DEADLOCK FALSE
