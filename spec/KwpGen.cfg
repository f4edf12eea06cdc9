SPECIFICATION Spec
CONSTANTS
  Lens = {9,10,12,15,16,17,18,19,20,21,22,23,24,25,31,32,33,34,39,40,41,63,64,65,127,128,129,255,256,257,1000,1024,4095,4096,8185,8191,8192}
CHECK_DEADLOCK FALSE
