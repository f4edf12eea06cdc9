SPECIFICATION Spec
CONSTANTS
  Procs = {1,2}
  Vals = {"a","b"}
  MaxCalls = 4
  MaxKills = 1
  Kind = "bolt"
  Atomic = TRUE
  Syncs = {"meta"}
  AckEarly = FALSE
INVARIANT Explained
CHECK_DEADLOCK FALSE
