SPECIFICATION Spec
CONSTANTS
  Kws = {"k"}
  Ids = {"i","j","h"}
  MaxLen = 6
CHECK_DEADLOCK FALSE
