SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  MaxTok = 2
  Keys = {"k1", "k2"}
  Validities = {0, 1, 2}
  Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
