SPECIFICATION Spec
CONSTANTS
 Ops = {"Add", "Search"}
 Own = {"KEK", "AEK", "TEK", "IEK"}
 MaxList = 3
CHECK_DEADLOCK FALSE
