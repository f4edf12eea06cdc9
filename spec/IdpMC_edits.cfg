SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v"}
  Gids = {"g","h"}
  Pws = {1,2,3}
  MaxCalls = 5
  MaxFaults = 0
  MaxEdits = 2
  GroupFirst = TRUE
  Bound = TRUE
INVARIANTS Exact Usable OwnPw OwnData
CHECK_DEADLOCK FALSE
