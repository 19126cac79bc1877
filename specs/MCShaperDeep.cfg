CONSTANTS
  MaxLen = 6
  Mod = 150
  EmitMod = 3
INIT Init
NEXT Next
INVARIANT Safe
INVARIANT Conserves
INVARIANT Terminates
INVARIANT Progress
INVARIANT Emit
PROPERTY Scan
CHECK_DEADLOCK FALSE
