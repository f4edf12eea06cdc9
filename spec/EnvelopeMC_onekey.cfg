SPECIFICATION Spec
CONSTANTS
  Keks = {1,2}
  Pts = {"p","q"}
  Aads = {"a","b"}
  MaxItems = 3
  FreshKey = FALSE
  BindAad = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
