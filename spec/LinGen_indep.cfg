SPECIFICATION Spec
CONSTANTS
  Kind = "indep"
  K = 2
CHECK_DEADLOCK FALSE
