SPECIFICATION Spec
CONSTANTS
  Ops = {"New", "NewIndex", "Encrypt", "Update", "Decrypt", "Delete", "GetAccessGroups", "AddGroupsToAccess", "RemoveGroupsFromAccess", "AuthorizeIdentity", "CreateToken", "GetTokenContents", "Add", "Search", "DeleteEntry", "GetIdentity", "NewUser", "LoginUser", "ChangeUserPassword", "AddUser", "RemoveUser", "DeleteUser", "NewGroup"}
  Others = {"Update", "DeleteEntry"}
  MaxAt = 10
CHECK_DEADLOCK FALSE
