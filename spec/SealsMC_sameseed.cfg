SPECIFICATION Spec
CONSTANTS
  Rekey = TRUE
  SameSeed = TRUE
  ClearList = FALSE
  MaxCalls = 3
  MaxRestarts = 1
  Leaks = {{}}
INVARIANTS FreshKeys
CHECK_DEADLOCK FALSE
