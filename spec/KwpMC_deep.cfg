SPECIFICATION Spec
CONSTANTS
  Lens = {9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,47,48,49,63,64,65,255,256,257}
  Mlis = {0,1,8,9,15,16,17,18,23,24,25,26,31,32,33,34,39,40,41,42,48,49,50,63,64,65,66,255,256,257,258,264}
  CheckPad = TRUE
INVARIANTS Inverse Exact
CHECK_DEADLOCK FALSE
