SPECIFICATION Spec
CONSTANTS
  Bytes = {0,1}
  MaxK = 6
  MaxS = 5
  MaxX = 3
  TagLens = {8,31,32,64}
  W = 5
  NoLength = FALSE
INVARIANTS Separates ViaFrame
CHECK_DEADLOCK FALSE
