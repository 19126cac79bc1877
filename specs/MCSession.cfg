CONSTANTS
  MaxActs = 8
  MaxLen = 3
  Mod = 120
INIT Init
NEXT Next
INVARIANT Clean
INVARIANT Frames
INVARIANT Functional
INVARIANT MemoConserves
INVARIANT Running
INVARIANT MemoLength
INVARIANT Terminates
INVARIANT Emit
CHECK_DEADLOCK FALSE
