CONSTANTS
  MaxLen = 4
  Mod = 100
  EmitMod = 1
INIT Init
NEXT Next
INVARIANT Safe
INVARIANT Conserves
INVARIANT Terminates
INVARIANT Progress
INVARIANT Emit
PROPERTY Scan
CHECK_DEADLOCK FALSE
