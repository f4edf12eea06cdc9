SPECIFICATION Spec
CONSTANTS
  Kind = "obj"
  MaxCalls = 4
  MaxOpen = 1
INVARIANTS Explained NeverMixed StaysGone GoneAtRest AloneExact
CHECK_DEADLOCK FALSE
