SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v"}
  Gids = {"g","h"}
  Pws = {1,2,3}
  MaxCalls = 4
  MaxFaults = 0
  MaxEdits = 1
  GroupFirst = TRUE
  Bound = FALSE
INVARIANTS Exact Usable OwnPw OwnData
CHECK_DEADLOCK FALSE
