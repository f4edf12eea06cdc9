SPECIFICATION Spec
CONSTANTS
  Uids = {"u","v"}
  Gids = {"g","h"}
CHECK_DEADLOCK FALSE
