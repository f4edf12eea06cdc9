SPECIFICATION Spec
CONSTANTS
 Ops = {"NewUser", "Login", "ChangePassword", "Identity", "NewGroup"}
 Own = {"UEK", "GEK", "LEK"}
 MaxList = 2
CHECK_DEADLOCK FALSE
