SPECIFICATION Spec
CONSTANTS
  Kws = {"k","l"}
  Ids = {"i","j"}
  MaxLen = 4
CHECK_DEADLOCK FALSE
