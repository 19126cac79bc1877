CONSTANTS
  Depth = 4
INIT Init
NEXT Next
INVARIANTS Total Correct Emitted
CHECK_DEADLOCK FALSE
