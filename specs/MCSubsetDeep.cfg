CONSTANTS
  N = 5
  MaxLookups = 2
  TextLen = 3
SPECIFICATION Spec
INVARIANTS Commutes Confluent ClosedComps Emit
CHECK_DEADLOCK FALSE
