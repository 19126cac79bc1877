SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Gor = 2
  MinOps = 1
  MaxOps = 2
  MaxSegs = 3
INVARIANTS Same ReadOnly Blind Form Emit
