SPECIFICATION Spec
CONSTANTS
  Bytes = {0,1}
  MaxK = 4
  MaxS = 4
  MaxX = 3
  TagLens = {8,31,32,64}
  W = 5
  NoLength = TRUE
INVARIANTS Separates
CHECK_DEADLOCK FALSE
