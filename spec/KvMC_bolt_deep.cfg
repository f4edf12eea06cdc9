SPECIFICATION Spec
CONSTANTS
  Procs = {1,2,3}
  Vals = {"a","b"}
  MaxCalls = 4
  MaxKills = 2
  Kind = "bolt"
  Atomic = TRUE
  Syncs = {"pages", "meta"}
  AckEarly = FALSE
INVARIANT Explained
CHECK_DEADLOCK FALSE
