CONSTANTS
  NPt = 2
  DX <- DXc
  DY <- DYc
  Reserved = {0, 64}
  Comps = {1, 5}
  EX = {"long", "same", "pos", "neg"}
  EY = {"long", "same", "pos", "neg"}
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT FaithfulComp
INVARIANT Emit
INVARIANT EmitComp
CHECK_DEADLOCK FALSE
