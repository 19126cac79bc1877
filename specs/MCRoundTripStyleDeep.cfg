SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Weights = {0, 300, 400, 649, 650, 749, 750, 800}
  Part = "style"
  Deep = FALSE
INVARIANTS Fixed Preserved Emit
