SPECIFICATION Spec
CONSTANTS
 Copy = "deep"
 Callers = {1, 2, 3}
 Room = 5
 Rounds = 2
INVARIANTS Lines Caller
CHECK_DEADLOCK FALSE
