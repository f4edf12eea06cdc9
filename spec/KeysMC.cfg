SPECIFICATION Spec
CONSTANTS
 MaxCalls = 4
 Shared = FALSE
INVARIANT Agree
CHECK_DEADLOCK FALSE
