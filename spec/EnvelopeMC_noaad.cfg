SPECIFICATION Spec
CONSTANTS
  Keks = {1,2}
  Pts = {"p","q"}
  Aads = {"a","b"}
  MaxItems = 3
  FreshKey = TRUE
  BindAad = FALSE
INVARIANT Exact
CHECK_DEADLOCK FALSE
