SPECIFICATION Spec
CONSTANTS
  Pieces = {"","a","b","c","ab","cab"}
  MaxLen = 4
CHECK_DEADLOCK FALSE
