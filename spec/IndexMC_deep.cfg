SPECIFICATION Spec
CONSTANTS
  Ids = {"i","j","k"}
  MaxC = 8
  MaxCalls = 9
  MaxFaults = 3
  Fixed = TRUE
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
