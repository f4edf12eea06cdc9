SPECIFICATION Spec
CONSTANTS
  Procs = {1,2}
  Vals = {"a","b"}
  MaxCalls = 4
  MaxKills = 0
  Kind = "mem"
  Atomic = TRUE
  Syncs = {"pages", "meta"}
  AckEarly = FALSE
INVARIANT Explained
CHECK_DEADLOCK FALSE
