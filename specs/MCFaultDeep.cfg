CONSTANTS
  MaxLen = 10
  MaxPieces = 5
SPECIFICATION Spec
INVARIANTS Contract Notices NeverGap Emit
CHECK_DEADLOCK FALSE
