SPECIFICATION Spec
CONSTANTS
  GroupScopes = {"Encrypt","Decrypt","Update","Delete","GetAccessGroups","ModifyAccessGroups"}
  MaxIdx = 0
CHECK_DEADLOCK FALSE
