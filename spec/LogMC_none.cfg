SPECIFICATION Spec
CONSTANTS
 Copy = "none"
 Callers = {1}
 Room = 5
 Rounds = 1
INVARIANTS Lines Caller
CHECK_DEADLOCK FALSE
