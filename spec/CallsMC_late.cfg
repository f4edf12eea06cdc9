SPECIFICATION Spec
CONSTANTS
  N = 2
  Steps = 3
  Late = TRUE
  Detached = FALSE
  Hidden = FALSE
INVARIANTS Proper Gone
CHECK_DEADLOCK FALSE
