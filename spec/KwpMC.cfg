SPECIFICATION Spec
CONSTANTS
  Lens = {9,15,16,17,23,24,25,31,32,33,40,41}
  Mlis = {0,1,8,9,15,16,17,18,23,24,25,26,31,32,33,34,39,40,41,42,48,49,50}
  CheckPad = TRUE
INVARIANTS Inverse Exact
CHECK_DEADLOCK FALSE
