SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Gor = 3
  MinOps = 1
  MaxOps = 1
  MaxSegs = 2
INVARIANTS Same ReadOnly Blind Form Emit
