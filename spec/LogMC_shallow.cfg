SPECIFICATION Spec
CONSTANTS
 Copy = "shallow"
 Callers = {1, 2}
 Room = 5
 Rounds = 2
INVARIANTS Lines Caller
CHECK_DEADLOCK FALSE
