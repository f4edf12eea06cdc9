SPECIFICATION Spec
CONSTANTS
 MaxCalls = 6
 Shared = FALSE
INVARIANT Agree
CHECK_DEADLOCK FALSE
