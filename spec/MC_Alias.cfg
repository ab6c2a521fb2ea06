SPECIFICATION Spec
CONSTANTS
  Forms = {"word", "scratch", "last"}
  V = 3
INVARIANTS InPlace Inputs
CHECK_DEADLOCK FALSE
