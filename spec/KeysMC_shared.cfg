SPECIFICATION Spec
CONSTANTS
 MaxCalls = 3
 Shared = TRUE
INVARIANT Agree
CHECK_DEADLOCK FALSE
