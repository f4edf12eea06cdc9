SPECIFICATION Spec
CONSTANTS
  Kws = {"k","l"}
  Ids = {"i","j"}
  MaxLen = 3
CHECK_DEADLOCK FALSE
