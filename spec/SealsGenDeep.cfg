SPECIFICATION Spec
CONSTANTS
 MaxList = 3
 MaxUsers = 3
CHECK_DEADLOCK FALSE
