CONSTANTS
  MaxGlyphs = 4
  Ws = {0, 500}
  Ls <- SomeLsb
  Boxes <- DeepBoxes
SPECIFICATION Spec
INVARIANTS RoundTrip Derived Carets Bits Emit
CHECK_DEADLOCK FALSE
