SPECIFICATION Spec
CONSTANTS
  Slots = {"x", "y"}
  Members = {"a", "g1"}
  Pays = {"1", "2"}
  Rich = FALSE
CHECK_DEADLOCK FALSE
