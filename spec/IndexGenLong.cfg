SPECIFICATION Spec
CONSTANTS
  Kws = {"k"}
  Ids = {"i","j"}
  MaxLen = 6
CHECK_DEADLOCK FALSE
