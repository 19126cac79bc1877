CONSTANTS
  MaxEntries = 4
  MaxGlyphs = 5
  Strs <- DStrs
  Keys <- DKeys
SPECIFICATION Spec
INVARIANTS Tables NameOk PostOk Codecs Emit
CHECK_DEADLOCK FALSE
