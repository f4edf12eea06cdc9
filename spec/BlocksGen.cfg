SPECIFICATION Spec
CONSTANT Ids = {"x","y"}
CHECK_DEADLOCK FALSE
