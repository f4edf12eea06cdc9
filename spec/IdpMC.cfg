SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v"}
  Gids = {"g","h"}
  Pws = {1,2,3}
  MaxCalls = 6
  MaxFaults = 1
  MaxEdits = 0
  GroupFirst = TRUE
  Bound = TRUE
INVARIANTS Exact Usable OwnPw OwnData
CHECK_DEADLOCK FALSE
