SPECIFICATION Spec
CONSTANTS
  Kind = "obj"
  K = 2
CHECK_DEADLOCK FALSE
