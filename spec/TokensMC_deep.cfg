SPECIFICATION Spec
CONSTANTS
  MaxT = 4
  MaxTok = 3
  Keys = {"k1", "k2"}
  Validities = {0, 1, 2}
  Emit = FALSE
INVARIANT Genuine
CHECK_DEADLOCK FALSE
