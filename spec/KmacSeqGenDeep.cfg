SPECIFICATION Spec
CONSTANTS
  Pieces = {"","a","b","c","ab","cab"}
  MaxLen = 6
CHECK_DEADLOCK FALSE
