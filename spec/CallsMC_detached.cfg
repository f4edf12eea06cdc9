SPECIFICATION Spec
CONSTANTS
  N = 2
  Steps = 3
  Late = FALSE
  Detached = TRUE
  Hidden = FALSE
INVARIANTS Proper Gone
CHECK_DEADLOCK FALSE
