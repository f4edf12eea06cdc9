SPECIFICATION Spec
CONSTANTS
  Rekey = TRUE
  SameSeed = FALSE
  ClearList = FALSE
  MaxCalls = 4
  MaxRestarts = 1
  Leaks = {{}, {"KEK"}, {"AEK"}, {"IEK", "UEK"}, {"KEK", "AEK"}}
INVARIANTS Secrecy NoKeys AsShown FreshKeys FreshPairs OwnVersion
CHECK_DEADLOCK FALSE
