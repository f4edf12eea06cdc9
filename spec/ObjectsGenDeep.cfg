SPECIFICATION Spec
CONSTANTS
  Slots = {"x", "y"}
  Members = {"a", "g1"}
  Pays = {"1", "2"}
  Rich = TRUE
CHECK_DEADLOCK FALSE
