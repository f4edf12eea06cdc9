SPECIFICATION Spec
CONSTANTS
  Rekey = FALSE
  SameSeed = FALSE
  ClearList = FALSE
  MaxCalls = 3
  MaxRestarts = 0
  Leaks = {{}}
INVARIANTS OwnVersion
CHECK_DEADLOCK FALSE
