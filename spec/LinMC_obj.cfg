SPECIFICATION Spec
CONSTANTS
  Kind = "obj"
  MaxCalls = 3
  MaxOpen = 2
INVARIANTS Explained NeverMixed StaysGone GoneAtRest AloneExact
CHECK_DEADLOCK FALSE
