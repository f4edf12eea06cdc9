SPECIFICATION Spec
CONSTANTS
  Keks = {1,2}
  Pts = {"p","q"}
  Aads = {"a","b"}
  MaxItems = 4
  FreshKey = TRUE
  BindAad = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
