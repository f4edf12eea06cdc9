SPECIFICATION Spec
CONSTANTS
  Kind = "idx"
  K = 3
CHECK_DEADLOCK FALSE
