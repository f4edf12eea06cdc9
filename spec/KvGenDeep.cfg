SPECIFICATION Spec
CONSTANTS
  Items = {"i1","i2","i3","i4","i5"}
  Vals = {"a","b","e"}
CHECK_DEADLOCK FALSE
