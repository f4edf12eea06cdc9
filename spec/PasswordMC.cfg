SPECIFICATION Spec
CONSTANTS
  Chars = {"a","b"}
  MaxLen = 4
  Salts = {1,2,3}
  Guard = TRUE
INVARIANTS Own NoOther NoOtherSalt
CHECK_DEADLOCK FALSE
