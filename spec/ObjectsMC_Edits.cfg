SPECIFICATION Spec
CONSTANTS
  Procs = {"p1"}
  Oids = {"x","y"}
  Ids = {"u"}
  MaxCalls = 3
  MaxFaults = 0
  MaxEdits = 2
  OpSet = {"Encrypt","Update","Decrypt","Delete","GetAccessGroups","AddGroupsToAccess","RemoveGroupsFromAccess"}
INVARIANTS PayloadGenuine ListGenuine Authorized NoStranded NoRevival Whole FreshKeys
CHECK_DEADLOCK FALSE
