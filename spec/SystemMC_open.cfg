SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v"}
  Gids = {"g"}
  Oids = {"o"}
  MaxCalls = 8
  MaxNow = 1
  Open = TRUE
INVARIANTS Confined Readers NotDead Timely Identified
CHECK_DEADLOCK FALSE
