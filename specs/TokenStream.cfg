CONSTANTS
  MaxTokens = 4
  MaxRunes = 3
  Strings = TRUE
  Drains = TRUE
SPECIFICATION Spec
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
