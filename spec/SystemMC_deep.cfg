SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v","w"}
  Gids = {"g"}
  Oids = {"o"}
  MaxCalls = 9
  MaxNow = 1
  Open = FALSE
INVARIANTS Confined Readers NotDead Timely Identified
CHECK_DEADLOCK FALSE
