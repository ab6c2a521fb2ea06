SPECIFICATION Spec
CONSTANTS
  Forms = {"early"}
  V = 3
INVARIANTS InPlace
CHECK_DEADLOCK FALSE
