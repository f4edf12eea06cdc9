SPECIFICATION Spec
CONSTANTS
  Kind = "idp"
  MaxCalls = 3
  MaxOpen = 3
INVARIANTS Explained NeverMixed StaysGone GoneAtRest AloneExact
CHECK_DEADLOCK FALSE
