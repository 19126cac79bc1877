CONSTANTS
  Zero = {""}
  Given = {"", "A", "A.1"}
  MaxRules = 2
SPECIFICATION Spec
INVARIANTS Distinct KeepsUnique Acceptable Stable Strict Emit
PROPERTIES Grows Stops
CHECK_DEADLOCK FALSE
