SPECIFICATION Spec
CONSTANTS
  Procs = {1,2}
  Vals = {"a","b"}
  MaxCalls = 2
  MaxKills = 0
  Kind = "mem"
  Atomic = FALSE
  Syncs = {"pages", "meta"}
  AckEarly = FALSE
INVARIANT Explained
CHECK_DEADLOCK FALSE
