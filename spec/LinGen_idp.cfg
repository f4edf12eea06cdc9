SPECIFICATION Spec
CONSTANTS
  Kind = "idp"
  K = 2
CHECK_DEADLOCK FALSE
