SPECIFICATION Spec
CONSTANTS
  KLens = {16,17,31,32,33,64,130,131,132,162,163,164,165,200,267,268,300,331,1000,8191,8192}
  SLens = {0,1,11,31,32,33,64,124,125,126,127,156,157,158,200,260,261,262,325,326,8191,8192}
  Tags = {8,9,31,32,33,64,200,8192}
CHECK_DEADLOCK FALSE
