SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Weights = {400, 600, 700}
  Part = "number"
  Deep = FALSE
INVARIANTS Fixed Preserved Emit
