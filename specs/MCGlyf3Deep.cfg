CONSTANTS
  NPt = 4
  DX <- DXb
  DY <- DYb
  Reserved = {0}
  Comps = {}
  EX = {"same", "pos"}
  EY = {"same", "neg"}
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT FaithfulComp
INVARIANT Emit
INVARIANT EmitComp
CHECK_DEADLOCK FALSE
