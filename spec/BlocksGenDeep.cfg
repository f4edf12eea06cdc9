SPECIFICATION Spec
CONSTANT Ids = {"x","y","z"}
CHECK_DEADLOCK FALSE
