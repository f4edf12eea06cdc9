SPECIFICATION Spec
CONSTANTS
  Handles = {1,2}
  Ids = {"x","y"}
  MaxCalls = 4
  Share = TRUE
INVARIANTS AsSaid BoxAsSaid OnlyWhole Own
CHECK_DEADLOCK FALSE
