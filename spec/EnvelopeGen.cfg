SPECIFICATION Spec
CONSTANTS
  Keks = {"k1","k2"}
  Pts = {"p","q"}
  Aads = {"a","b"}
  Alts = {"no","flip","cut","cutfront","longer","empty","tail"}
  MaxItems = 2
CHECK_DEADLOCK FALSE
