SPECIFICATION Spec
CONSTANTS
  Kind = "obj"
  K = 3
CHECK_DEADLOCK FALSE
