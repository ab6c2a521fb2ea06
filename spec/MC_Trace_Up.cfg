SPECIFICATION Spec
CONSTANTS
  N = 4
  Q = 8
  Down = FALSE
INVARIANTS Half Only
CHECK_DEADLOCK FALSE
