CONSTANTS
  MaxLookups = 3
  MaxSubs = 2
  Sizes = {1, 12, 30, 45}
  Limit = 40
  GMax = 5
  CMax = 2
SPECIFICATION Spec
INVARIANTS PlanOk NotRefused TabOk TabMin Emit
CHECK_DEADLOCK FALSE
