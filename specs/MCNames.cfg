CONSTANTS
  MaxEntries = 3
  MaxGlyphs = 4
  Strs <- QStrs
  Keys <- QKeys
SPECIFICATION Spec
INVARIANTS Tables NameOk PostOk Codecs Emit
CHECK_DEADLOCK FALSE
