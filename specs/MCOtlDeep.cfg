CONSTANTS
  MaxLookups = 3
  MaxSubs = 3
  Sizes = {1, 5, 14, 21}
  Limit = 20
  GMax = 6
  CMax = 2
SPECIFICATION Spec
INVARIANTS PlanOk NotRefused TabOk TabMin Emit
CHECK_DEADLOCK FALSE
