SPECIFICATION Spec
CONSTANTS
  Procs = {1,2,3}
  Vals = {"a","b"}
  MaxCalls = 5
  MaxKills = 0
  Kind = "mem"
  Atomic = TRUE
  Syncs = {"pages", "meta"}
  AckEarly = FALSE
INVARIANT Explained
CHECK_DEADLOCK FALSE
