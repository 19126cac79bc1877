SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Gor = 2
  MinOps = 2
  MaxOps = 2
  MaxSegs = 2
INVARIANTS Same ReadOnly Blind Form Emit
