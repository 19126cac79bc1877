CONSTANTS
  TextLen = 2
  LigLen = 4
SPECIFICATION Spec
INVARIANTS TextKept Plain AfterWidths KernIsPairs SelOk KernOk LigOk Emit
PROPERTY PosKeeps
CHECK_DEADLOCK FALSE
