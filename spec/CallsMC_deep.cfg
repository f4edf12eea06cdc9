SPECIFICATION Spec
CONSTANTS
  N = 3
  Steps = 6
  Late = FALSE
  Detached = FALSE
  Hidden = FALSE
INVARIANTS Proper Gone
CHECK_DEADLOCK FALSE
