SPECIFICATION Spec
CONSTANTS
  Kind = "idx"
  K = 2
CHECK_DEADLOCK FALSE
