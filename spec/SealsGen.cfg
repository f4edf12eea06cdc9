SPECIFICATION Spec
CONSTANTS
 MaxList = 2
 MaxUsers = 2
CHECK_DEADLOCK FALSE
