SPECIFICATION Spec
CONSTANTS
  N = 2
  Steps = 3
  Late = FALSE
  Detached = FALSE
  Hidden = TRUE
INVARIANTS Proper Gone
CHECK_DEADLOCK FALSE
