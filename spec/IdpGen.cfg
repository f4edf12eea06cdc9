SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v"}
  Gids = {"g"}
CHECK_DEADLOCK FALSE
