SPECIFICATION Spec
CONSTANTS
 Ops = {"CreateToken", "Open"}
 Own = {"KEK", "AEK", "TEK", "IEK"}
 MaxList = 3
CHECK_DEADLOCK FALSE
