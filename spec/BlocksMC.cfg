SPECIFICATION Spec
CONSTANTS
  Handles = {1,2}
  Ids = {"x","y"}
  MaxCalls = 4
  Share = FALSE
INVARIANTS AsSaid BoxAsSaid OnlyWhole Own
CHECK_DEADLOCK FALSE
