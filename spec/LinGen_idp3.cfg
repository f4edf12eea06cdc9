SPECIFICATION Spec
CONSTANTS
  Kind = "idp"
  K = 3
CHECK_DEADLOCK FALSE
