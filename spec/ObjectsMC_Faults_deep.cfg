SPECIFICATION Spec
CONSTANTS
  Procs = {"p1"}
  Oids = {"x","y"}
  Ids = {"u","v"}
  MaxCalls = 5
  MaxFaults = 2
  MaxEdits = 0
  OpSet = {"Encrypt","Update","Decrypt","Delete","GetAccessGroups","AddGroupsToAccess","RemoveGroupsFromAccess"}
INVARIANTS PayloadGenuine ListGenuine Authorized NoStranded NoRevival Whole FreshKeys
CHECK_DEADLOCK FALSE
