SPECIFICATION Spec
CONSTANTS
  GroupScopes = {"Decrypt"}
  MaxIdx = 1
CHECK_DEADLOCK FALSE
