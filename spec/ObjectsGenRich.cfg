SPECIFICATION Spec
CONSTANTS
  Slots = {"x"}
  Members = {"a", "g1", "g2"}
  Pays = {"1"}
  Rich = TRUE
CHECK_DEADLOCK FALSE
