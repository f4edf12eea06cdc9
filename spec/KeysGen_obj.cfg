SPECIFICATION Spec
CONSTANTS
 Ops = {"Encrypt", "Update", "Decrypt", "GetGroups", "Authorize", "AddGroups", "Delete"}
 Own = {"KEK", "AEK", "TEK", "IEK"}
 MaxList = 2
CHECK_DEADLOCK FALSE
