CONSTANTS
  TextLen = 4
  LigLen = 6
SPECIFICATION Spec
INVARIANTS TextKept Plain AfterWidths KernIsPairs SelOk KernOk LigOk Emit
PROPERTY PosKeeps
CHECK_DEADLOCK FALSE
