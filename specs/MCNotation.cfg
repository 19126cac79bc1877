CONSTANTS
  Depth = 3
INIT Init
NEXT Next
INVARIANTS Total Correct Emitted
CHECK_DEADLOCK FALSE
