CONSTANTS
  MaxLen = 7
  MaxPieces = 4
SPECIFICATION Spec
INVARIANTS Contract Notices NeverGap Emit
CHECK_DEADLOCK FALSE
