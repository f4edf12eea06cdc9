SPECIFICATION Spec
CONSTANTS
  Kind = "obj"
  MaxCalls = 2
  MaxOpen = 2
INVARIANTS Strict
CHECK_DEADLOCK FALSE
