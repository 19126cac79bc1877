CONSTANTS
  B = 3
  MaxLen = 7
  MaxPos = 9
SPECIFICATION Spec
INVARIANTS Window Observational
CHECK_DEADLOCK FALSE
