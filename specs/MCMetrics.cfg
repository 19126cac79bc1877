CONSTANTS
  MaxGlyphs = 3
  Ws = {0, 500, 501}
  Ls <- SomeLsb
  Boxes <- QuickBoxes
SPECIFICATION Spec
INVARIANTS RoundTrip Derived Carets Bits Emit
CHECK_DEADLOCK FALSE
