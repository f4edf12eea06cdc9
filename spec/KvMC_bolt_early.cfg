SPECIFICATION Spec
CONSTANTS
  Procs = {1}
  Vals = {"a","b"}
  MaxCalls = 2
  MaxKills = 1
  Kind = "bolt"
  Atomic = TRUE
  Syncs = {"pages", "meta"}
  AckEarly = TRUE
INVARIANT Explained
CHECK_DEADLOCK FALSE
