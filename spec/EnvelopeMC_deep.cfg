SPECIFICATION Spec
CONSTANTS
  Keks = {1,2}
  Pts = {"p","q","r"}
  Aads = {"a","b"}
  MaxItems = 5
  FreshKey = TRUE
  BindAad = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
