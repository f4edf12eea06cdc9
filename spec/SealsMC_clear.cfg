SPECIFICATION Spec
CONSTANTS
  Rekey = TRUE
  SameSeed = FALSE
  ClearList = TRUE
  MaxCalls = 2
  MaxRestarts = 0
  Leaks = {{}}
INVARIANTS Secrecy
CHECK_DEADLOCK FALSE
