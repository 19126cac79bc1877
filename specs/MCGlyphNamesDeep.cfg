CONSTANTS
  Zero = {"", "A"}
  Given = {"", "A", "A.1", "orn001", ".notdef", "A_B"}
  MaxRules = 2
SPECIFICATION Spec
INVARIANTS Distinct KeepsUnique Acceptable Stable Strict Emit
PROPERTIES Grows Stops
CHECK_DEADLOCK FALSE
