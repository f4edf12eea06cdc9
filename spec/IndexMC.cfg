SPECIFICATION Spec
CONSTANTS
  Ids = {"i","j"}
  MaxC = 7
  MaxCalls = 8
  MaxFaults = 3
  Fixed = TRUE
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
