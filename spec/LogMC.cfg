SPECIFICATION Spec
CONSTANTS
 Copy = "deep"
 Callers = {1, 2}
 Room = 5
 Rounds = 3
INVARIANTS Lines Caller
CHECK_DEADLOCK FALSE
