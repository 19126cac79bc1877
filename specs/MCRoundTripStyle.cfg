SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Weights = {400, 600, 700}
  Part = "style"
  Deep = FALSE
INVARIANTS Fixed Preserved Emit
